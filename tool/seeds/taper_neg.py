property='P26'; file='src/utils/signal_processing/taper.cc'; np=1
old='''        const auto non_zero = [](auto v) { return v != 0; };
'''
new='''        const auto non_zero = [](auto v) { return v > 0; };
'''
needs='a trace which begins with zeros and goes on with a negative sample'
what='the ramp begins after the first samples of the live part'
main=r'''
#include "ExSeisDat/utils/signal_processing/taper.h"
#include "ExSeisDat/utils/signal_processing/Taper_function.h"
#include <cmath>
using namespace exseis::utils;
int main() {
    float t[16];
    for (int i = 0; i < 16; i++) t[i] = i < 3 ? 0.f : i < 5 ? -8.f : 8.f;
    taper(16, t, linear_taper, 2, 8);
    for (int i = 0; i < 16; i++) {
        float w = i < 3 ? 0.f : i < 5 ? -8.f : 8.f;
        if (i == 3) w *= 0.5f;
        if (i >= 8) w *= float(16 - i) / 8;
        if (std::abs(t[i] - w) > 1e-4f) return 1;
    }
    return 0;
}
'''
