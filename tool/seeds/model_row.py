property='P20'; file='src/ReadSEGYModel.cc'; np=1
old='''        auto val   = gather[offset[i]];
        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count
'''
new='''        auto val   = gather[offset[i]];
        offsets[i] = ((val.inline_ - il.start) / il.increment) * il.count
'''
needs='a velocity model with different numbers of inlines and crosslines, read for gathers named one by one'
what='traces of other inlines are read'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/ReadSEGYModel.hh"
#include "ExSeisDat/PIOL/makeFile.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include <unistd.h>
using namespace exseis::PIOL;
using exseis::utils::Integer;
static void put(std::shared_ptr<ExSeisPIOL> p, const char* n, std::vector<std::pair<int,int>> l) {
    WriteDirect w(p, n);
    w.writeNs(2); w.writeInc(0.004); w.writeNt(l.size());
    Param prm(l.size());
    std::vector<float> t;
    for (size_t i = 0; i < l.size(); i++) {
        param_utils::setPrm(i, PIOL_META_il, Integer(l[i].first), &prm);
        param_utils::setPrm(i, PIOL_META_xl, Integer(l[i].second), &prm);
        t.push_back(l[i].first * 100 + l[i].second); t.push_back(-1);
    }
    w.writeTrace(size_t(0), l.size(), t.data(), &prm);
}
int main() {
    alarm(60);
    auto p = ExSeis::New();
    int bad = 0;
    {
    std::vector<std::pair<int,int>> m, g;
    for (int i = 0; i < 3; i++) for (int j = 0; j < 4; j++) m.push_back({10 + 2 * i, 5 + 3 * j});
    g = m;
    put(p, "m.segy", m);
    put(p, "g.segy", g);
    auto vm = makeFile<ReadSEGYModel>(p, "m.segy");
    ReadDirect f(p, "g.segy");
    auto ga = getIlXlGathers(p.get(), f);
    if (ga.size() != g.size()) return 2;
    std::vector<size_t> o;
    for (size_t i = 0; i < g.size(); i++) o.push_back(i);
    auto v = vm->readModel(o.size(), o.data(), ga);
    for (size_t i = 0; i < g.size(); i++) { if (v[2 * i] != g[i].first * 100 + g[i].second) bad++; }
    }
    return bad != 0;
}
'''
