R = 'src/ReadSEGY.cc'
S = 'src/sort.cc'
CLIP = "(offset + sz > nt ? nt - offset : sz)"
NZ = "size_t ntz = ((sz == 0 || offset >= nt) ?\n                    0LU :\n                    (offset + sz > nt ? nt - offset : sz));"
ND = "    for (size_t j = 0; j < sz; j++) {\n        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {\n            nodups.push_back(offset[idx[j]]);\n        }\n    }\n"
CP = "        for (size_t n = 0, j = 0; j < sz; ++j) {\n            if (j != 0 && offset[idx[j - 1]] != offset[idx[j]]) {\n                n++;\n            }\n\n            param_utils::cpyPrm(n, &sprm, skip + idx[j], prm);\n        }\n"
CT = "        for (size_t n = 0, j = 0; j < sz; ++j) {\n            if (j != 0 && offset[idx[j - 1]] != offset[idx[j]]) {\n                n++;\n            }\n\n            for (size_t k = 0; k < ns; k++) {\n                trc[idx[j] * ns + k] = strc[n * ns + k];\n            }\n        }\n"
CASES = [
 ('p13-clip-ge', 'P13', 'same', R, "(offset + sz > nt ?", "(offset + sz >= nt ?"),
 ('p13-clip-off', 'P13', 'bug', R, CLIP, "(offset + sz > nt ? nt - offset - 1 : sz)"),
 ('p13-clip-none', 'P13', 'bug', R, CLIP, "sz"),
 ('p13-clip-min', 'P13', 'same', R, CLIP, "std::min(sz, nt - offset)"),
 ('p13-clip-min2', 'P13', 'same', R, NZ, "size_t ntz = 0;\n    if (offset < nt) {\n        ntz = std::min(nt - offset, sz);\n    }"),
 ('p13-clip-sub', 'P13', 'same', R, "(offset + sz > nt ?", "(sz > nt - offset ?"),
 ('p13-clip-neg', 'P13', 'bug', R, "(sz == 0 || offset >= nt) ?", "(sz == 0) ?"),
 ('p13-clip-gt', 'P13', 'same', R, "(sz == 0 || offset >= nt) ?", "(sz == 0 || offset > nt) ?"),
 ('p13-clip-gt1', 'P13', 'bug', R, "(sz == 0 || offset >= nt) ?", "(sz == 0 || offset > nt + 1) ?"),
 ('p13-skip', 'P13', 'bug', R, "[offset](size_t i) -> size_t { return offset + i; }, ntz, trc, prm, skip);", "[offset](size_t i) -> size_t { return offset + i; }, ntz, trc, prm, 0);"),
 ('p13-ltn', 'P13', 'bug', R, "[offset](size_t i) -> size_t { return offset + i; }, ntz", "[offset](size_t i) -> size_t { return i; }, ntz"),
 ('p13-ltn-skip', 'P13', 'bug', R, "PIOL_META_ltn, offunc(i), prm", "PIOL_META_ltn, offunc(i + skip), prm"),
 ('p13-ltn-place', 'P13', 'bug', R, "setPrm(i + skip, PIOL_META_ltn", "setPrm(i, PIOL_META_ltn"),
 ('p13-nlist', 'P13', 'bug', R, "[offset](size_t i) -> size_t { return offset[i]; }", "[offset](size_t i) -> size_t { return offset[0] + i; }"),
 ('p13-do', 'P13', 'bug', R, "        if (trc == TRACE_NULL) {\n            obj->readDOMD", "        if (trc != TRACE_NULL) {\n            obj->readDOMD"),
 ('p13-do-swap', 'P13', 'same', R, "    if (prm == PIOL_PARAM_NULL) {\n        obj->readDODF(offset, ns, sz, tbuf);\n    }\n    else {", "    if (prm == PIOL_PARAM_NULL) {\n        obj->readDODF(offset, ns, sz, tbuf);\n    }\n    if (PIOL_PARAM_NULL != prm) {"),
 ('p13-ord', 'P13', 'bug', S, "return list[s1] < list[s2]", "return list[s1] > list[s2]"),
 ('p13-iota', 'P13', 'bug', S, "std::iota(index.begin(), index.end(), 0)", "std::iota(index.begin(), index.end(), 1)"),
 ('p13-dedup', 'P13', 'bug', R, "if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {", "if (j == 0 || offset[idx[j - 1]] + 1 < offset[idx[j]]) {"),
 ('p13-dedup-lt', 'P13', 'same', R, "if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {", "if (j == 0 || offset[idx[j]] != offset[idx[j - 1]]) {"),
 ('p13-dedup-idx', 'P13', 'bug', R, "if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {", "if (j == 0 || offset[j - 1] != offset[j]) {"),
 ('p13-dedup-val', 'P13', 'bug', R, "nodups.push_back(offset[idx[j]])", "nodups.push_back(offset[j])"),
 ('p13-dedup-all', 'P13', 'bug', R, ND, ND.replace("        if (j == 0 || offset[idx[j - 1]] != offset[idx[j]]) {\n            nodups.push_back(offset[idx[j]]);\n        }\n", "        nodups.push_back(offset[idx[j]]);\n")),
 ('p13-dedup-first', 'P13', 'same', R, ND, "    if (sz > 0) {\n        nodups.push_back(offset[idx[0]]);\n    }\n    for (size_t j = 1; j < sz; j++) {\n        if (offset[idx[j - 1]] != offset[idx[j]]) {\n            nodups.push_back(offset[idx[j]]);\n        }\n    }\n"),
 ('p13-dedup-auto', 'P13', 'same', R, ND, "    for (size_t j = 0; j < sz; j++) {\n        const size_t o = offset[idx[j]];\n        const bool fresh = (j == 0) || (o != offset[idx[j - 1]]);\n        if (!fresh) {\n            continue;\n        }\n        nodups.push_back(o);\n    }\n"),
 ('p13-dedup-rsv', 'P13', 'same', R, "    std::vector<size_t> nodups;\n", "    std::vector<size_t> nodups;\n    nodups.reserve(sz);\n"),
 ('p13-cp-n', 'P13', 'bug', R, CP, CP.replace("cpyPrm(n,", "cpyPrm(j,")),
 ('p13-cp-skip', 'P13', 'bug', R, CP, CP.replace("skip + idx[j]", "idx[j]")),
 ('p13-cp-idx', 'P13', 'bug', R, CP, CP.replace("skip + idx[j]", "skip + j")),
 ('p13-cp-1', 'P13', 'bug', R, CP, CP.replace("size_t n = 0, j = 0", "size_t n = 0, j = 1")),
 ('p13-cp-cond', 'P13', 'bug', R, CP, CP.replace("j != 0 && offset[idx[j - 1]] != offset[idx[j]]", "j > 1 && offset[idx[j - 1]] != offset[idx[j]]")),
 ('p13-ct-idx', 'P13', 'bug', R, CT, CT.replace("trc[idx[j] * ns + k]", "trc[j * ns + k]")),
 ('p13-ct-n', 'P13', 'bug', R, CT, CT.replace("strc[n * ns + k]", "strc[j * ns + k]")),
 ('p13-ct-ns', 'P13', 'bug', R, CT, CT.replace("k < ns", "k + 1 < ns")),
 ('p13-ct-copy', 'P13', 'same', R, CT, CT.replace("            for (size_t k = 0; k < ns; k++) {\n                trc[idx[j] * ns + k] = strc[n * ns + k];\n            }\n", "            std::copy_n(strc.data() + n * ns, ns, trc + idx[j] * ns);\n")),
 ('p13-merge', 'P13', 'same', R, CP + "    }\n\n    if (trc != TRACE_NULL) {\n" + CT + "    }\n", "    }\n    for (size_t n = 0, j = 0; j < sz; ++j) {\n        if (j != 0 && offset[idx[j - 1]] != offset[idx[j]]) {\n            n++;\n        }\n        if (prm != PIOL_PARAM_NULL) {\n            param_utils::cpyPrm(n, &sprm, skip + idx[j], prm);\n        }\n        if (trc != TRACE_NULL) {\n            for (size_t k = 0; k < ns; k++) {\n                trc[idx[j] * ns + k] = strc[n * ns + k];\n            }\n        }\n    }\n"),
 ('p13-sprm0', 'P13', 'bug', R, "(prm != PIOL_PARAM_NULL ? &sprm : prm), 0LU);", "(prm != PIOL_PARAM_NULL ? &sprm : prm), skip);"),
 ('p13-strc', 'P13', 'bug', R, "ns * (trc != TRACE_NULL ? nodups.size() : 0LU)", "(trc != TRACE_NULL ? nodups.size() : 0LU)"),
 ('p13-strc-sz', 'P13', 'same', R, "ns * (trc != TRACE_NULL ? nodups.size() : 0LU)", "(trc == TRACE_NULL ? 0LU : nodups.size() * ns)"),
 ('p13-sprm-n', 'P13', 'bug', R, "(prm != PIOL_PARAM_NULL ? nodups.size() : 0LU)", "(prm != PIOL_PARAM_NULL ? nodups.size() - 1 : 0LU)"),
 ('p13-sprm-sz', 'P13', 'same', R, "(prm != PIOL_PARAM_NULL ? nodups.size() : 0LU)", "(prm != PIOL_PARAM_NULL ? sz : 0LU)"),
 ('p13-incr', 'P13', 'same', R, CP, CP.replace("            if (j != 0 && offset[idx[j - 1]] != offset[idx[j]]) {\n                n++;\n            }\n", "            n += (j != 0 && offset[idx[j - 1]] != offset[idx[j]]) ? 1 : 0;\n")),
]
