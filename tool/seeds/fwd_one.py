property='P17'; file='src/ReadInterface.cc'
old='''    readTrace(
      offset, sz, const_cast<exseis::utils::Trace_value*>(TRACE_NULL), prm,
      skip);'''
new='''    readTrace(
      offset, sz, const_cast<exseis::utils::Trace_value*>(TRACE_NULL), prm,
      (sz > 1 ? skip : 0));'''
needs='reading the headers of a single trace to a place other than the first'
what='the headers land in the first place'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il});
    {
        WriteDirect w(p, "./x");
        w.writeNs(3);
        Param prm(rule, 6);
        for (size_t i = 0; i < 6; i++) param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(40 + i), &prm);
        w.writeParam(0, 6, &prm);
    }
    ReadDirect f(p, "./x");
    ReadInterface* r = f;
    for (size_t k = 1; k < 3; k++) {
        Param prm(rule, 5);
        for (size_t i = 0; i < 5; i++) param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(7), &prm);
        r->readParam(1, k, &prm, 2);
        for (size_t i = 0; i < 5; i++)
            if (param_utils::getPrm<exseis::utils::Integer>(i, PIOL_META_il, &prm) != (i >= 2 && i < 2 + k ? 39 + long(i) : 7)) return 1;
    }
    return 0;
}
'''
