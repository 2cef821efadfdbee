property='P25'; file='src/Flow/Set.cc'; np=1
old='''                    mm.num = std::min(tmm.num, mm.num);
'''
new='''                    mm.num = tmm.num;
'''
needs='a set of several files with the same lowest value, the trace with it coming later in the last file'
what='the trace with the lowest value is not the first one'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/Flow/Set.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(60);
    auto p = ExSeis::New();
    for (int k = 0; k < 3; k++) {
        WriteDirect w(p, "in" + std::to_string(k) + ".segy");
        w.writeNs(1);
        w.writeInc(0.004);
        w.writeNt(4);
        Param prm(4);
        std::vector<float> t(4, 1.f);
        for (int i = 0; i < 4; i++) {
            param_utils::setPrm(i, PIOL_META_xSrc, double(i == k ? 2 : 9), &prm);
            param_utils::setPrm(i, PIOL_META_ySrc, double(3 + i), &prm);
        }
        w.writeTrace(size_t(0), size_t(4), t.data(), &prm);
    }
    exseis::Flow::Set s(p, "in?.segy");
    CoordElem m[4];
    s.getMinMax(PIOL_META_xSrc, PIOL_META_ySrc, m);
    return !(m[0].val == 2 && m[0].num == 0 && m[1].val == 9 && m[2].val == 3 && m[3].val == 6 && m[2].num == 0 && m[3].num == 3);
}
'''
link='"$repo/_build/libexseisdat.a" -lfftw3f'
