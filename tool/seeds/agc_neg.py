property='P26'; file='src/utils/signal_processing/Gain_function.cc'; np=1
old='''        amp += scaled_signal * scaled_signal;
    }
    assert(amp != 0);

    const auto non_zero = [](Trace_value i) { return i != 0; };
'''
new='''        amp += scaled_signal * scaled_signal;
    }
    assert(amp != 0);

    const auto non_zero = [](Trace_value i) { return i > 0; };
'''
needs='a window with negative samples'
what='negative samples are not counted, and the gain is too low'
main=r'''
#include "ExSeisDat/utils/signal_processing/Gain_function.h"
#include <cmath>
using namespace exseis::utils;
int main() {
    float s[7] = {3, -1, 4, 1, -5, 9, 2};
    float amp = 0;
    for (int j = 0; j < 7; j++) {
        const float d = j > 2 ? j - 2 : 2 - j, v = s[j] * (1 - d / 4);
        amp += v * v;
    }
    return !(std::abs(triangular_RMS_gain(s, 7, 1.f, 2) - 1.f / std::sqrt(amp / 7)) < 1e-4f);
}
'''
