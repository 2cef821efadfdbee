property='P19'; file='src/gather.cc'; np=2
old='''      && xlb[rank - 1LU] == xlf[rank]) {

        start = 1;
'''
new='''      && xlb[rank - 1LU] >= xlf[rank]) {

        start = 1;
'''
needs='two processes, crosslines decreasing along an inline, and a gather which begins exactly where the part of the second process begins'
what='the gather which begins on the second process is dropped from the list'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/ReadInterface.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(60);
    auto p = ExSeis::New();
    const int xl[6] = {3, 3, 3, 2, 2, 1};
    {
        WriteDirect w(p, "g.segy");
        w.writeNs(1);
        w.writeInc(0.004);
        w.writeNt(6);
        Param prm(6);
        std::vector<float> t(6, 1.f);
        for (int i = 0; i < 6; i++) {
            param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(10), &prm);
            param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(xl[i]), &prm);
        }
        w.writeTrace(size_t(0), size_t(6), t.data(), &prm);
    }
    ReadDirect f(p, "g.segy");
    auto g = getIlXlGathers(p.get(), f);
    if (g.size() != 3) return 1;
    for (size_t i = 0; i < 3; i++) {
        auto x = g[i];
        if (x.num_traces != 3 - i || x.inline_ != 10 || x.crossline != exseis::utils::Integer(3 - i)) return 1;
    }
    return 0;
}
'''
