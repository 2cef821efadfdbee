property='P08'; file='src/WriteSEGY.cc'
old='''                  to_big_endian<int16_t>(std::lround(inc / incFactor));'''
new='''                  to_big_endian<int16_t>(static_cast<int16_t>(inc / incFactor));'''
needs='a sample interval whose quotient by a microsecond falls just below a whole number'
what='the interval written is one microsecond short'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include <fstream>
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    for (int k = 1; k < 600; k++) {
        { WriteDirect w(p, "./x"); w.writeNs(2); w.writeNt(0); w.writeInc(k * 1e-6); }
        std::ifstream f("x", std::ios::binary);
        unsigned char b[3600];
        f.read((char*)b, 3600);
        if ((b[3216] << 8 | b[3217]) != k) return 1;
    }
    return 0;
}
'''
