property='P24'; file='src/Flow/Set.cc'; np=1
old='''        j += f->olst.size();
'''
new='''        j = f->olst.size();
'''
needs='a sort of a set of three or more files of one kind'
what='the third file takes over places of another file, so traces overwrite each other and the output is not sorted'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/Flow/Set.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(60);
    auto p = ExSeis::New();
    const int n[3] = {3, 4, 5};
    int g = 0;
    for (int k = 0; k < 3; k++) {
        WriteDirect w(p, "in" + std::to_string(k) + ".segy");
        w.writeNs(2);
        w.writeInc(0.004);
        w.writeNt(n[k]);
        Param prm(n[k]);
        std::vector<float> t(2 * n[k]);
        for (int i = 0; i < n[k]; i++, g++) {
            param_utils::setPrm(i, PIOL_META_xSrc, double((g * 7) % 12), &prm);
            param_utils::setPrm(i, PIOL_META_ySrc, 0., &prm);
            param_utils::setPrm(i, PIOL_META_xRcv, 0., &prm);
            param_utils::setPrm(i, PIOL_META_yRcv, 0., &prm);
            t[2 * i] = t[2 * i + 1] = float((g * 7) % 12);
        }
        w.writeTrace(size_t(0), size_t(n[k]), t.data(), &prm);
    }
    std::vector<std::string> names;
    {
        exseis::Flow::Set s(p, "in?.segy");
        s.sort(PIOL_SORTTYPE_SrcRcv);
        names = s.output("sorted");
    }
    if (names.size() != 1) return 1;
    ReadDirect f(p, names[0]);
    std::vector<float> t(24, -1.f);
    if (f.readNt() != 12) return 1;
    f.readTrace(size_t(0), size_t(12), t.data());
    for (int i = 0; i < 24; i++)
        if (t[i] != float(i / 2)) return 1;
    return 0;
}
'''
link='"$repo/_build/libexseisdat.a" -lfftw3f'
