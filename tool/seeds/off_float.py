property='P14'; file='src/sort.cc'
old='''inline exseis::utils::Floating_point off(
  exseis::utils::Floating_point sx,
  exseis::utils::Floating_point sy,
  exseis::utils::Floating_point rx,
  exseis::utils::Floating_point ry)'''
new='''inline float off(float sx, float sy, float rx, float ry)'''
needs='coordinates that differ by less than the precision of a float at their magnitude (UTM northings in centimetres)'
what='the sort types with a computed offset treat different distances as equal and order them by trace number'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/operations/sort.hh"
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    const double xr[] = {0., 0., 0.}, yr[] = {6000001.25, 6000000.75, 6000000.25};
    Param prm(3);
    for (size_t i = 0; i < 3; i++) {
        param_utils::setPrm(i, PIOL_META_xSrc, 0., &prm);
        param_utils::setPrm(i, PIOL_META_ySrc, 6000000., &prm);
        param_utils::setPrm(i, PIOL_META_xRcv, xr[i], &prm);
        param_utils::setPrm(i, PIOL_META_yRcv, yr[i], &prm);
        param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(1), &prm);
        param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(1), &prm);
        param_utils::setPrm(i, PIOL_META_ltn, exseis::utils::Integer(i), &prm);
        param_utils::setPrm(i, PIOL_META_gtn, exseis::utils::Integer(i), &prm);
    }
    for (auto t : {PIOL_SORTTYPE_SrcOff, PIOL_SORTTYPE_LineOff, PIOL_SORTTYPE_OffLine}) {
        auto c = getComp(t);
        if (!c(&prm, 1, 0) || c(&prm, 0, 1) || !c(&prm, 2, 0)) return 1;
    }
    return 0;
}
'''
