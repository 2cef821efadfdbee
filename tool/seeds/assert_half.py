property='P27'; file='src/utils/signal_processing/AGC.cc'
old='''    assert(window_size == 2 * win2 + 1);
'''
new='''    assert(window_size-- == 2 * win2 + 1);
'''
needs='a build with assertions'
what='the assertion makes the window one shorter, so the gains differ from those of a build without assertions'
script=r'''
for v in "" -DNDEBUG; do
  mpicxx -std=gnu++14 -O1 -w $v $inc -I"$repo/include" -I"$repo/src" "$d/main.cc" "$repo/src/utils/signal_processing/AGC.cc" "$repo/_build/libexseisdat.a" -o "$w/demo$v" || exit 99
  (cd "$w" && timeout 60 "./demo$v" > "out$v") || exit 1
done
cmp "$w/out" "$w/out-DNDEBUG"
'''
files={'main.cc': r'''
#include "ExSeisDat/utils/signal_processing/AGC.h"
#include <cstdio>
#include <vector>
using exseis::utils::Trace_value;
static Trace_value gain(const Trace_value* s, size_t n, Trace_value, size_t c) { Trace_value t = 0; for (size_t i = 0; i < n; i++) t += s[i]; return t + 1000 * c; }
int main() {
    std::vector<Trace_value> s(40);
    for (size_t i = 0; i < s.size(); i++) s[i] = 1 + i % 7;
    exseis::utils::AGC(s.size(), s.data(), gain, 9, 1);
    for (auto x : s) printf("%g\n", x);
}
'''}
