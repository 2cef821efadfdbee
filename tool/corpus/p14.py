S = 'src/sort.cc'
F = 'exseis::utils::Floating_point'
TIE = "e1xl < e2xl\n              || (e1xl == e2xl\n                  && param_utils::getPrm<exseis::utils::Integer>(\n                       i, PIOL_META_ltn, prm)\n                       < param_utils::getPrm<exseis::utils::Integer>(\n                           j, PIOL_META_ltn, prm))"
SRT = "    if (e1il < e2il) {\n        return true;\n    }\n    else if (e1il == e2il) {\n        auto e1xl ="
LOOP = "    for (size_t i = 1; i < lnt; i++) {\n        if (!comp(&prm, i - 1, i)) {\n            return false;\n        }\n    }\n\n    return true;"
LSR_A = "static bool lessSrcRcv(const Param* prm, const size_t i, const size_t j)\n{\n    auto e1sx = param_utils::getPrm<exseis::utils::Floating_point>(\n      i, PIOL_META_xSrc, prm);\n    auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(\n      j, PIOL_META_xSrc, prm);\n\n    if (e1sx < e2sx) {\n        return true;\n    }\n    else if (e1sx == e2sx) {"
HELP = "static bool lessSrcRcv(const Param* prm, const size_t i, const size_t j)\n{\n    using namespace param_utils;\n    const Meta keys[4] = {PIOL_META_xSrc, PIOL_META_ySrc, PIOL_META_xRcv, PIOL_META_yRcv};\n    for (size_t k = 0; k < 4; k++) {\n        auto a = getPrm<exseis::utils::Floating_point>(i, keys[k], prm);\n        auto b = getPrm<exseis::utils::Floating_point>(j, keys[k], prm);\n        if (a < b) return true;\n        if (b < a) return false;\n    }\n    return getPrm<exseis::utils::Integer>(i, PIOL_META_ltn, prm) < getPrm<exseis::utils::Integer>(j, PIOL_META_ltn, prm);\n}\nstatic bool lessSrcRcv_(const Param* prm, const size_t i, const size_t j)\n{\n    auto e1sx = param_utils::getPrm<exseis::utils::Floating_point>(\n      i, PIOL_META_xSrc, prm);\n    auto e2sx = param_utils::getPrm<exseis::utils::Floating_point>(\n      j, PIOL_META_xSrc, prm);\n    (void)lessSrcRcv_;\n    if (e1sx < e2sx) {\n        return true;\n    }\n    else if (e1sx == e2sx) {"
CASES = [
 ('p14-key', 'P14', 'bug', S, "            auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(\n              j, PIOL_META_xRcv, prm);\n\n            if (e1rx < e2rx)", "            auto e2rx = param_utils::getPrm<exseis::utils::Floating_point>(\n              j, PIOL_META_yRcv, prm);\n\n            if (e1rx < e2rx)"),
 ('p14-tie', 'P14', 'bug', S, TIE, "e1xl < e2xl"),
 ('p14-tie2', 'P14', 'bug', S, TIE, TIE.replace('< param_utils', '> param_utils')),
 ('p14-tie3', 'P14', 'bug', S, TIE, TIE.replace('e1xl == e2xl', 'e1xl <= e2xl + 1')),
 ('p14-gt', 'P14', 'same', S, TIE, TIE.replace('e1xl < e2xl', 'e2xl > e1xl')),
 ('p14-tie4', 'P14', 'same', S, TIE, TIE.replace('e1xl == e2xl', '!(e2xl < e1xl)')),
 ('p14-le', 'P14', 'bug', S, SRT, SRT.replace('e1il < e2il', 'e1il <= e2il')),
 ('p14-else', 'P14', 'bug', S, SRT, SRT.replace('else if (e1il == e2il)', 'else')),
 ('p14-early', 'P14', 'same', S, SRT, SRT.replace('if (e1il < e2il) {\n        return true;\n    }\n    else if (e1il == e2il) {', 'if (e1il != e2il) {\n        return e1il < e2il;\n    }\n    {')),
 ('p14-off', 'P14', 'bug', S, "return (sx - rx) * (sx - rx) + (sy - ry) * (sy - ry);", "return (sx - rx) * (sx - rx) + (sy - ry) * (sx - rx);"),
 ('p14-off2', 'P14', 'same', S, "return (sx - rx) * (sx - rx) + (sy - ry) * (sy - ry);", "const auto dx = rx - sx;\n    const auto dy = ry - sy;\n    return dy * dy + dx * dx;"),
 ('p14-off3', 'P14', 'bug', S, "CalcOff ? off(e2sx, e2sy, e2rx, e2ry) :\n                         param_utils::getPrm<exseis::utils::Integer>(\n                           j, PIOL_META_Offset, prm));\n\n            return (", "CalcOff ? off(e2sx, e1sy, e2rx, e2ry) :\n                         param_utils::getPrm<exseis::utils::Integer>(\n                           j, PIOL_META_Offset, prm));\n\n            return ("),
 ('p14-map', 'P14', 'bug', S, "case PIOL_SORTTYPE_RcvOff:\n            return lessRcvOff<true>;", "case PIOL_SORTTYPE_RcvOff:\n            return lessRcvOff<false>;"),
 ('p14-map2', 'P14', 'bug', S, "return lessRcvOff<false>;", "return lessSrcOff<false>;"),
 ('p14-map3', 'P14', 'bug', S, "            return lessLineOff<true>;\n            break;", "            return lessLineOff<true>;\n            break;".replace('LineOff', 'OffLine')),
 ('p14-maporder', 'P14', 'same', S, "        default:\n        case PIOL_SORTTYPE_SrcRcv:\n            return lessSrcRcv;\n            break;\n        case PIOL_SORTTYPE_SrcOff:\n            return lessSrcOff<true>;", "        case PIOL_SORTTYPE_SrcOff:\n            return lessSrcOff<true>;\n        default:\n        case PIOL_SORTTYPE_SrcRcv:\n            return lessSrcRcv;"),
 ('p14-lambda', 'P14', 'same', S, "            return lessOffLine<false>;", "            return [](const Param* p, const size_t a, const size_t b) -> bool { return lessOffLine<false>(p, a, b); };"),
 ('p14-lambdaswap', 'P14', 'bug', S, "            return lessOffLine<false>;", "            return [](const Param* p, const size_t a, const size_t b) -> bool { return lessOffLine<false>(p, b, a); };"),
 ('p14-loopkeys', 'P14', 'same', S, LSR_A, HELP),
 ('p14-sortcomp', 'P14', 'bug', S, "return sort(piol, prm, getComp(type));", "return sort(piol, prm, getComp(PIOL_SORTTYPE_SrcRcv));"),
 ('p14-sortcomp2', 'P14', 'same', S, "return sort(piol, prm, getComp(type));", "auto c = getComp(type);\n    return sort(piol, prm, c);"),
 ('p14-chkstart', 'P14', 'bug', S, LOOP, LOOP.replace('i = 1', 'i = 2')),
 ('p14-chkswap', 'P14', 'bug', S, LOOP, LOOP.replace('i - 1, i)', 'i, i - 1)')),
 ('p14-chkend', 'P14', 'bug', S, LOOP, LOOP.replace('i < lnt', 'i + 1 < lnt')),
 ('p14-chkneg', 'P14', 'bug', S, LOOP, LOOP.replace('!comp', 'comp')),
 ('p14-chk0', 'P14', 'same', S, LOOP, LOOP.replace('i = 1; i < lnt', 'i = 0; i + 1 < lnt').replace('i - 1, i)', 'i, i + 1)')),
 ('p14-chkflag', 'P14', 'same', S, LOOP, "    bool ok = true;\n    for (size_t i = 1; ok && i < lnt; i++) {\n        ok = comp(&prm, i - 1, i);\n    }\n    return ok;"),
 ('p14-chkflag2', 'P14', 'same', S, LOOP, "    bool ok = true;\n    for (size_t i = 1; i < lnt; i++) {\n        if (!comp(&prm, i - 1, i)) {\n            ok = false;\n            break;\n        }\n    }\n    return ok;"),
 ('p14-chkwhile', 'P14', 'same', S, LOOP, "    size_t i = 1;\n    while (i < lnt && comp(&prm, i - 1, i)) {\n        i++;\n    }\n    return i >= lnt;"),
 ('p14-chkbefore', 'P14', 'bug', S, "src->readParam(dec.global_offset - before, lnt, &prm);", "src->readParam(dec.global_offset, lnt, &prm);"),
 ('p14-chkbefore2', 'P14', 'bug', S, "(dec.local_size != 0 && dec.global_offset != 0 ? 1LU : 0LU);", "0LU;"),
 ('p14-chkbefore3', 'P14', 'same', S, "(dec.local_size != 0 && dec.global_offset != 0 ? 1LU : 0LU);", "std::min<size_t>(std::min<size_t>(dec.local_size, dec.global_offset), 1LU);"),
]
