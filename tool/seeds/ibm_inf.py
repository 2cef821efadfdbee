property='P10'; file='src/utils/encoding/number_encoding.cc'
old='''    if (exp >= 0xFF) {
        frac = 0;'''
new='''    if (exp > 0xFF) {
        frac = 0;'''
needs='an IBM sample between 2^128 and 2^129'
what='such samples become NaN instead of infinity'
main=r'''
#include "ExSeisDat/utils/encoding/number_encoding.hh"
#include <cmath>
int main() {
    for (unsigned e = 94; e < 99; e++)
        for (unsigned f = 0x100000; f < 0x1000000; f += 4097) {
            double v = std::ldexp(double(f), 4 * (int(e) - 64) - 24);
            float w  = float(v);
            float g  = exseis::utils::from_IBM_to_float({{(unsigned char)e, (unsigned char)(f >> 16), (unsigned char)(f >> 8), (unsigned char)f}}, true);
            if (std::memcmp(&w, &g, 4)) return 1;
        }
    return 0;
}
'''
