T = 'src/utils/signal_processing/taper.cc'
A = 'src/utils/signal_processing/AGC.cc'
G = 'src/utils/signal_processing/Gain_function.cc'
R = 'src/utils/signal_processing/Taper_function.cc'
_b = [
 ('t-one', T, "taper_function(j + 1, left_taper_size);", "taper_function(j, left_taper_size);"),
 ('t-right', T, "taper_function(right_taper_size - j, right_taper_size);", "taper_function(j + 1, right_taper_size);"),
 ('t-right2', T, "taper_function(right_taper_size - j, right_taper_size);", "taper_function(right_taper_size - j - 1, right_taper_size);"),
 ('t-size', T, "taper_function(right_taper_size - j, right_taper_size);", "taper_function(right_taper_size - j, left_taper_size);"),
 ('t-off', T, "const auto offset = signal_size - right_taper_size;", "const auto offset = signal_size - left_taper_size;"),
 ('t-clip', T, "          std::min(left_taper_size, truncated_signal_size);", "          left_taper_size;"),
 ('t-clip2', T, "          std::min(right_taper_size, truncated_signal_size);", "          std::min(left_taper_size, truncated_signal_size);"),
 ('t-zero', T, "        if (truncated_signal == signal + signal_size) {\n            return;\n        }\n", ""),
 ('t-mute', T, "if (signal[0] == 0) {", "if (signal[0] == 0 && signal[1] == 0) {"),
 ('t-swap', T, "taper_function, truncated_left,\n          truncated_right);", "taper_function, truncated_right,\n          truncated_left);", 'skip'),
 ('t-len', T, "          signal_size - std::distance(signal, truncated_signal);", "          signal_size - std::distance(signal, truncated_signal) - 1;"),
 ('a-first', A, "for (size_t j = 0; j < win2; j++) {", "for (size_t j = 0; j + 1 < win2; j++) {"),
 ('a-chop', A, "const size_t chopped_window_size   = win2 + j + 1;", "const size_t chopped_window_size   = win2 + j;"),
 ('a-cent', A, "const size_t chopped_window_center = j;", "const size_t chopped_window_center = win2;"),
 ('a-mid', A, "gain_function(&signal[j - win2], window_size, target_amplitude, win2);", "gain_function(&signal[j - win2], window_size - 1, target_amplitude, win2);"),
 ('a-mid2', A, "for (size_t j = win2; j < signal_size - win2; j++) {", "for (size_t j = win2; j < signal_size - win2 - 1; j++) {"),
 ('a-end', A, "const size_t chopped_window_size = win2 + dist_from_end + 1;", "const size_t chopped_window_size = win2 + dist_from_end;"),
 ('a-even', A, "window_size = (window_size % 2 == 0 ? window_size + 1 : window_size);", "window_size = (window_size % 2 == 0 ? window_size - 1 : window_size);"),
 ('a-inplace', A, "        gain[j] =\n          gain_function(&signal[j - win2], window_size, target_amplitude, win2);", "        gain[j] = 1;\n        signal[j] *=\n          gain_function(&signal[j - win2], window_size, target_amplitude, win2);"),
 ('a-apply', A, "for (size_t j = 0; j < signal_size; j++) {\n        signal[j]", "for (size_t j = 1; j < signal_size; j++) {\n        signal[j]"),
 ('a-div', A, "signal[j] *= gain[j];", "signal[j] /= gain[j];"),
 ('g-rms', G, "        amp += signal[j] * signal[j];", "        amp += std::abs(signal[j]);"),
 ('g-half', G, "std::max<size_t>(1, std::max(left_width, right_width));", "std::max<size_t>(1, left_width);"),
 ('g-half2', G, "std::max<size_t>(1, std::max(left_width, right_width));", "std::max(left_width, right_width);"),
 ('g-dist', G, "(j > window_center) ? j - window_center : window_center - j;", "(j >= window_center) ? j - window_center : 0;"),
 ('g-num', G, "const size_t num    = std::count_if(signal, &signal[window_size], non_zero);\n\n    return target_amplitude / (amp", "const size_t num    = window_size;\n\n    return target_amplitude / (amp"),
 ('g-abs', G, "return sum + std::abs(i);", "return sum + i;"),
 ('g-med', G, "const auto amp = signalTmp[window_size / 2];", "const auto amp = signal[window_size / 2];"),
 ('g-even', G, "((signalTmp[window_size / 2] + signalTmp[window_size / 2 + 1]) / 2);", "signalTmp[window_size / 2];"),
 ('r-lin', R, "return 1.0f - std::abs((weight - ramp) / ramp);", "return std::abs((weight - ramp) / ramp);"),
 ('r-cos', R, "return 0.5f + 0.5f * std::cos(", "return 0.5f - 0.5f * std::cos("),
 ('r-sq', R, "std::pow(cosine_taper(weight, ramp), 2);", "std::pow(cosine_taper(weight, ramp), 3);"),
 ('r-c', R, "    return cosine_square_taper(weight, ramp);\n", "    return cosine_taper(weight, ramp);\n"),
]
_s = [
 ('s-loop', T, "    for (size_t j = 0; j < left_taper_size; j++) {\n        signal[j] *= taper_function(j + 1, left_taper_size);\n    }", "    for (size_t j = 1; j <= left_taper_size; j++) {\n        signal[j - 1] = taper_function(j, left_taper_size) * signal[j - 1];\n    }"),
 ('s-find', T, "        const auto non_zero = [](auto v) { return v != 0; };\n\n        auto* truncated_signal =\n          std::find_if(signal, signal + signal_size, non_zero);", "        auto* truncated_signal = signal;\n        while (truncated_signal != signal + signal_size && *truncated_signal == 0) {\n            ++truncated_signal;\n        }"),
 ('s-right', T, "    for (size_t j = 0; j < right_taper_size; j++) {\n        const auto offset = signal_size - right_taper_size;\n\n        signal[offset + j] *=\n          taper_function(right_taper_size - j, right_taper_size);\n    }", "    for (size_t j = right_taper_size; j > 0; j--) {\n        signal[signal_size - j] *= taper_function(j, right_taper_size);\n    }"),
 ('s-agc', A, "    for (size_t j = signal_size - win2; j < signal_size; j++) {", "    const size_t end = signal_size - win2;\n    for (size_t j = end; j < signal_size; j++) {"),
 ('s-one', A, "    for (size_t j = 0; j < win2; j++) {\n", "    std::vector<Trace_value> copy(signal, signal + signal_size);\n    for (size_t j = 0; j < win2; j++) {\n"),
 ('s-rms', G, "    Trace_value amp = 0;\n    for (size_t j = 0; j < window_size; j++) {\n        amp += signal[j] * signal[j];\n    }\n", "    const Trace_value amp = std::accumulate(signal, signal + window_size, Trace_value(0), [](Trace_value a, Trace_value b) { return a + b * b; });\n"),
 ('s-inner', G, "    return target_amplitude / std::sqrt(amp / std::max<size_t>(1, num));\n}\n\nextern \"C\" Trace_value exseis_rectangular", "    return target_amplitude * std::sqrt(std::max<size_t>(1, num) / amp);\n}\n\nextern \"C\" Trace_value exseis_rectangular"),
 ('s-lin', R, "return 1.0f - std::abs((weight - ramp) / ramp);", "return 1.0f - std::abs(weight - ramp) / ramp;"),
 ('s-num', G, "    const auto non_zero = [](Trace_value i) { return i != 0; };\n    const size_t num    = std::count_if(signal, &signal[window_size], non_zero);\n\n    return target_amplitude / std::sqrt(amp / std::max<size_t>(1, num));\n}\n\nextern \"C\" Trace_value exseis_rectangular", "    size_t num = 0;\n    for (size_t j = 0; j < window_size; j++) {\n        if (signal[j] != 0) {\n            num++;\n        }\n    }\n    if (num == 0) {\n        num = 1;\n    }\n\n    return target_amplitude / std::sqrt(amp / num);\n}\n\nextern \"C\" Trace_value exseis_rectangular"),
]
CASES = [('p26-' + t[0], 'P26', 'bug') + t[1:4] for t in _b if len(t) == 4] + [('p26-' + t[0], 'P26', 'same') + t[1:4] for t in _s]
