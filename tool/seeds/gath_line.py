property='P19'; file='src/gather.cc'; np=1
old='''        if (il != ill || xl != xll) {
'''
new='''        if (il > ill || xl != xll) {
'''
needs='two adjacent gathers with the same crossline, the second on a lower inline'
what='two gathers are reported as one'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/ReadInterface.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(60);
    auto p = ExSeis::New();
    const int il[6] = {7, 8, 8, 5, 5, 5}, xl[6] = {1, 1, 1, 1, 1, 1};
    {
        WriteDirect w(p, "g.segy");
        w.writeNs(1);
        w.writeInc(0.004);
        w.writeNt(6);
        Param prm(6);
        std::vector<float> t(6, 1.f);
        for (int i = 0; i < 6; i++) {
            param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(il[i]), &prm);
            param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(xl[i]), &prm);
        }
        w.writeTrace(size_t(0), size_t(6), t.data(), &prm);
    }
    ReadDirect f(p, "g.segy");
    auto g = getIlXlGathers(p.get(), f);
    const int want[3] = {7, 8, 5};
    if (g.size() != 3) return 1;
    for (size_t i = 0; i < 3; i++) {
        auto x = g[i];
        if (x.num_traces != i + 1 || x.inline_ != want[i]) return 1;
    }
    return 0;
}
'''
