[
('ibm-shift', 'P10', 'bug', 'src/utils/encoding/number_encoding.cc', 'offsets[]         = {3, 2, 1, 1', 'offsets[]         = {3, 2, 1, 0'),
('ibm-half', 'P10', 'bug', 'src/utils/encoding/number_encoding.cc', 'if (trunc > half)', 'if (trunc >= half)'),
('ibm-shift32', 'P10', 'bug', 'src/utils/encoding/number_encoding.cc', 'if (shift >= 32) {', 'if (shift > 32) {'),
('ibm-overflow', 'P10', 'bug', 'src/utils/encoding/number_encoding.cc', 'if (exp >= 0xFF) {\n        frac = 0;', 'if (exp > 0xFF) {\n        frac = 0;'),
('ibm-zero', 'P10', 'bug', 'src/utils/encoding/number_encoding.cc', 'if (components.significand == 0) {\n        exp = 0;', 'if (components.significand == 0) {\n        exp = 1;'),
('ibm-expmask', 'P10', 'bug', 'src/utils/encoding/number_encoding.cc', '>> 24) & 0x7F;', '>> 24) & 0x3F;'),
('be-order', 'P10', 'bug', 'include/ExSeisDat/utils/encoding/number_encoding.hh', '(T(src[0]) << 24) | (T(src[1]) << 16)', '(T(src[1]) << 24) | (T(src[0]) << 16)'),
('tobe-shift', 'P10', 'bug', 'include/ExSeisDat/utils/encoding/number_encoding.hh', 't_size - i - 1;', 't_size - i;'),
('read-count', 'P10', 'bug', 'src/ReadSEGY.cc', 'for (size_t i = 0; i < ns * sz; i++) {\n                trc[i] = from_big', 'for (size_t i = 0; i < sz; i++) {\n                trc[i] = from_big'),
('read-le', 'P10', 'bug', 'src/ReadSEGY.cc', 'from_IBM_to_float(be_bytes_array, true)', 'from_IBM_to_float(be_bytes_array, false)'),
('read-fmt', 'P10', 'bug', 'src/ReadSEGY.cc', 'if (number_format == SEGYNumberFormat::IBM) {', 'if (number_format != SEGYNumberFormat::IBM) {'),
('read-place', 'P10', 'bug', 'src/ReadSEGY.cc', '&tbuf[i * SEGY_utils::getDFSz(ns)]', '&tbuf[i * SEGY_utils::getDOSz(ns)]'),
('write-restore', 'P10', 'bug', 'src/WriteSEGY.cc', 'be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],\n              be_trc_i_bytes[3]', 'be_trc_i_bytes[3], be_trc_i_bytes[1], be_trc_i_bytes[2],\n              be_trc_i_bytes[0]'),
('write-stride', 'P10', 'bug', 'src/WriteSEGY.cc', 'sz, prm, buf, blockSz - SEGY_utils::getMDSz(), skip', 'sz, prm, buf, blockSz, skip'),
('write-nskip', 'P10', 'bug', 'src/WriteSEGY.cc', 'sz, prm, buf, blockSz - SEGY_utils::getMDSz(), skip', 'sz, prm, buf, blockSz - SEGY_utils::getMDSz(), 0LU'),
('read-loop-same', 'P10', 'same', 'src/ReadSEGY.cc', 'for (size_t i = 0; i < ns * sz; i++) {\n                trc[i] = from_big', 'const size_t total = sz * ns;\n            for (size_t i = 0; i != total; ++i) {\n                trc[i] = from_big'),
('read-nest-same', 'P10', 'same', 'src/ReadSEGY.cc', 'for (size_t i = 0; i < ns * sz; i++) {\n                trc[i] = from_big', 'for (size_t tr = 0; tr < sz; tr++) for (size_t sm = 0; sm < ns; sm++) {\n                const size_t i = tr * ns + sm;\n                trc[i] = from_big'),
('ibm-leading-same', 'P10', 'same', 'src/utils/encoding/number_encoding.cc', 'const int32_t shift              = offsets[leading_frac_bits];', 'int32_t shift = 0;\n if (leading_frac_bits == 0) shift = 3; else if (leading_frac_bits == 1) shift = 2; else if (leading_frac_bits < 4) shift = 1;'),
('ibm-round-same', 'P10', 'same', 'src/utils/encoding/number_encoding.cc', 'if (trunc > half) {\n        truncated_value += 1;\n    }\n    else if (trunc == half) {', 'const bool odd = (truncated_value % 2) == 1;\n    if (trunc > half || (trunc == half && odd)) {\n        ++truncated_value;\n    }\n    else if (false) {'),
('ibm-while-same', 'P10', 'same', 'src/utils/encoding/number_encoding.cc', 'const int32_t shift              = offsets[leading_frac_bits];', 'int32_t shift = 0;\n while (((frac << shift) & 0x800000) == 0 && shift < 3) shift++;'),
('tobe-same', 'P10', 'same', 'include/ExSeisDat/utils/encoding/number_encoding.hh', 'dst[i] = (src >> bit_shift) & 0xFF;', 'dst[t_size - 1 - i] = static_cast<unsigned char>(src >> (8 * i));'),
('read-bytes-same', 'P10', 'same', 'src/ReadSEGY.cc', '''std::array<unsigned char, 4> be_bytes_array = {
                  {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
                   be_trc_i_bytes[3]}};''', '''std::array<unsigned char, 4> be_bytes_array;
                 std::copy(be_trc_i_bytes, be_trc_i_bytes + 4, be_bytes_array.begin());'''),
]
