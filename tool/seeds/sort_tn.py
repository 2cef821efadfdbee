property='P15'; file='src/sort.cc'; np=2
old='''            const auto param1 = param_utils::getPrm<exseis::utils::Integer>(
              j, PIOL_META_gtn, &temp1);

            const auto param2 = param_utils::getPrm<exseis::utils::Integer>(
              j, PIOL_META_gtn, &temp2);
'''
new=old.replace('PIOL_META_gtn','PIOL_META_tn')
needs='a sort over processes in which the traces exchanged in a step carry equal trace numbers'
what='the sort ends early and the traces are left out of order'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/operations/sort.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(40);
    auto p = ExSeis::New();
    const int r = p->comm->getRank(), n = 6;
    Param prm(n);
    for (int i = 0; i < n; i++) {
        param_utils::setPrm(i, PIOL_META_xSrc, double(100 - (r * n + i)), &prm);
        param_utils::setPrm(i, PIOL_META_ySrc, 0., &prm);
        param_utils::setPrm(i, PIOL_META_xRcv, 0., &prm);
        param_utils::setPrm(i, PIOL_META_yRcv, 0., &prm);
        param_utils::setPrm(i, PIOL_META_tn, exseis::utils::Integer(1), &prm);
        param_utils::setPrm(i, PIOL_META_gtn, exseis::utils::Integer(r * n + i), &prm);
    }
    auto l = sort(p.get(), &prm, getComp(PIOL_SORTTYPE_SrcRcv), false);
    int bad = l.size() != size_t(n);
    for (int i = 0; i < n && !bad; i++) bad = l[i] != size_t(2 * n - 1 - (r * n + i));
    return p->comm->max(size_t(bad)) != 0;
}
'''
