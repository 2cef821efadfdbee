property='P09'; file='src/segy_utils.cc'
old='''                      ((scal1 > 1 || scal2 > 1) ? std::max(scal1, scal2) :
                                                  std::min(scal1, scal2));'''
new='''                      ((scal1 > 1) ? std::max(scal1, scal2) :
                                     std::min(scal1, scal2));'''
needs='a fractional and a very large coordinate that share a scale, met in that order'
what='the large coordinate does not fit the scale written'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"
#include <cmath>
using namespace exseis::PIOL;
int main() {
    auto r = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_xSrc, PIOL_META_ySrc});
    for (int k = 0; k < 2; k++) {
        Param p(r, 1), q(r, 1);
        Meta m[2] = {k ? PIOL_META_xSrc : PIOL_META_ySrc, k ? PIOL_META_ySrc : PIOL_META_xSrc};
        param_utils::setPrm(0, m[0], 12.5, &p);
        param_utils::setPrm(0, m[1], 4000000000.0, &p);
        std::vector<unsigned char> b(240);
        SEGY_utils::insertParam(1, &p, b.data(), 0, 0);
        SEGY_utils::extractParam(1, b.data(), &q, 0, 0);
        if (std::abs(param_utils::getPrm<exseis::utils::Floating_point>(0, m[1], &q) - 4000000000.0) > 1e4) return 1;
    }
    return 0;
}
'''
