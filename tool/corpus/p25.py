H = 'include/ExSeisDat/PIOL/operations/minmax.h'
M = 'src/minmax.cc'
F = 'src/Flow/Set.cc'
_b = [
 ('lt', H, "if (elem1(a) < elem1(b)) {", "if (elem1(a) <= elem1(b)) {"),
 ('gt', H, "elem2(a) < elem2(b)) {", "elem2(a) > elem2(b)) {"),
 ('el', H, "if (elem1(a) == elem1(b) && elem2(a) < elem2(b)) {", "if (elem2(a) < elem2(b)) {"),
 ('none', H, "if (elem1(a) == elem1(b) && elem2(a) < elem2(b)) {", "if (false) {"),
 ('off', H, "{offset + std::distance(coord, p.first),", "{0LU + std::distance(coord, p.first),"),
 ('off2', H, "offset + std::distance(coord, p.second)};", "offset + std::distance(p.first, p.second)};"),
 ('second', H, "elem1(*p.second)};", "elem1(*p.first)};"),
 ('sec2', H, "elem2(*p.second)};", "elem2(*p.first)};"),
 ('keep', H, "        if (!tsz[i]) {", "        if (tsz[i] > 1000) {"),
 ('erase', H, "            ttrace.erase(ttrace.begin() + 2U * i + 1U);\n            ttrace.erase(ttrace.begin() + 2U * i);\n", ""),
 ('erase2', H, "            tminmax.erase(tminmax.begin() + 2U * i + 1U);\n            tminmax.erase(tminmax.begin() + 2U * i);", "            tminmax.erase(tminmax.begin() + 2U * i);\n            tminmax.erase(tminmax.begin() + 2U * i + 1U);"),
 ('last', H, "i = tsz.size() - 1U; i >= 0; i--", "i = tsz.size() - 1U; i > 0; i--"),
 ('ties', H, "return tsecond[a] < tsecond[b];", "return tsecond[b] < tsecond[a];"),
 ('res', H, "CoordElem{tminmax[*s.second], ttrace[*s.second]}};", "CoordElem{tminmax[*s.second], ttrace[*s.first]}};"),
 ('yx', H, "getCoordMinMax<T>(piol, offset, sz, coord, ylam, xlam);", "getCoordMinMax<T>(piol, offset, sz, coord, ylam, ylam);"),
 ('y', H, "minmax + x.size());", "minmax + 1);"),
 ('only', H, "    auto ttrace  = piol->comm->gather(ltrace);", "    auto ttrace  = (sz != 0 ? piol->comm->gather(ltrace) : ltrace);"),
 ('m2', M, "      [m2](const Param& a)", "      [m2 = m1](const Param& a)"),
 ('cpy', M, "param_utils::cpyPrm(i, prm, 0, &vprm.back());", "param_utils::cpyPrm(0, prm, 0, &vprm.back());"),
 ('cpy2', M, "for (size_t i = 0; i < lnt; i++) {", "for (size_t i = 1; i < lnt; i++) {"),
 ('offs', M, "      piol, offset, lnt, vprm.data(),", "      piol, 0LU, lnt, vprm.data(),"),
 ('fmax', F, "else if (tmm2.val > mm2.val) {", "else if (tmm2.val < mm2.val) {"),
 ('fnum', F, "                    mm.num = std::min(tmm.num, mm.num);", "                    mm.num = std::max(tmm.num, mm.num);"),
 ('finit', F, "    minmax[3].val =\n      std::numeric_limits<exseis::utils::Floating_point>::lowest();", "    minmax[3].val =\n      std::numeric_limits<exseis::utils::Floating_point>::min();"),
 ('fidx', F, "auto& tmm2 = tminmax[2LU * i + 1LU];", "auto& tmm2 = tminmax[2LU * i];"),
 ('floop', F, "        for (size_t i = 0LU; i < 2LU; i++) {\n\n            {\n                auto& tmm", "        for (size_t i = 0LU; i < 1LU; i++) {\n\n            {\n                auto& tmm"),
 ('foff', F, "size_t offset = piol->comm->offset(f->ilst.size());\n        PIOL::getMinMax(", "size_t offset = 0;\n        PIOL::getMinMax("),
 ('fprm', F, "f->ifc->readParamNonContiguous(f->ilst.size(), f->ilst.data(), &prm);\n\n        for (size_t i = 0; i < f->ilst.size(); i++) {\n            vprm", "f->ifc->readParam(0, f->ilst.size(), &prm);\n\n        for (size_t i = 0; i < f->ilst.size(); i++) {\n            vprm"),
]
_s = [
 ('min', H, """        if (elem1(a) < elem1(b)) {
            return true;
        }

        if (elem1(a) == elem1(b) && elem2(a) < elem2(b)) {
            return true;
        }

        return false;""", """        const auto a1 = elem1(a);
        const auto b1 = elem1(b);
        return a1 == b1 ? elem2(a) < elem2(b) : a1 < b1;"""),
 ('erase', H, """            tminmax.erase(tminmax.begin() + 2U * i + 1U);
            tminmax.erase(tminmax.begin() + 2U * i);""", """            auto from = tminmax.begin() + 2U * i;
            tminmax.erase(from, from + 2);"""),
 ('first', H, "    auto p = std::minmax_element(coord, coord + sz, min);\n", "    auto p = std::minmax_element(coord, coord + sz, min);\n    const T& lowest = *p.first;\n    (void)lowest;\n"),
 ('pair', H, """    if (s.first != s.second) {
        minmax = {CoordElem{tminmax[*s.first], ttrace[*s.first]},
                  CoordElem{tminmax[*s.second], ttrace[*s.second]}};
    }
    else {
        minmax = {CoordElem{0, std::numeric_limits<size_t>::max()},
                  CoordElem{0, std::numeric_limits<size_t>::max()}};
    }
""", """    if (tminmax.empty()) {
        const CoordElem none{0, std::numeric_limits<size_t>::max()};
        minmax.push_back(none);
        minmax.push_back(none);
    }
    else {
        minmax.push_back({tminmax[*s.first], ttrace[*s.first]});
        minmax.push_back({tminmax[*s.second], ttrace[*s.second]});
    }
"""),
 ('copy', H, """        std::copy(x.begin(), x.end(), minmax);
        std::copy(y.begin(), y.end(), minmax + x.size());""", """        for (size_t i = 0; i < 2; i++) {
            minmax[i]     = x[i];
            minmax[2 + i] = y[i];
        }"""),
 ('vprm', M, """    for (size_t i = 0; i < lnt; i++) {
        vprm.emplace_back(prm->r, 1LU);
        param_utils::cpyPrm(i, prm, 0, &vprm.back());
    }""", """    size_t i = 0;
    while (i < lnt) {
        vprm.push_back(Param(prm->r, 1LU));
        Param& one = vprm.back();
        param_utils::cpyPrm(i++, prm, 0, &one);
    }"""),
 ('lam', M, """    getMinMax<Param>(
      piol, offset, lnt, vprm.data(),
      [m1]""", """    using exseis::utils::Floating_point;
    getMinMax<Param>(
      piol, offset, lnt, vprm.data(),
      [m1]"""),
 ('fset', F, """                if (tmm.val == mm.val) {
                    mm.num = std::min(tmm.num, mm.num);
                }
                else if (tmm.val < mm.val) {
                    mm = tmm;
                }""", """                if (tmm.val < mm.val) {
                    mm = tmm;
                }
                else if (!(mm.val < tmm.val) && tmm.num < mm.num) {
                    mm.num = tmm.num;
                }"""),
 ('finit', F, """    for (size_t i = 0; i < 4; i++) {
        minmax[i].num = std::numeric_limits<size_t>::max();
    }

    CoordElem tminmax[4LU];
""", """    CoordElem tminmax[4LU];
    std::for_each(minmax, minmax + 4, [](CoordElem& e) {
        e.num = std::numeric_limits<size_t>::max();
    });
"""),
 ('fsz', F, """        size_t offset = piol->comm->offset(f->ilst.size());
        PIOL::getMinMax(
          piol.get(), offset, f->ilst.size(), vprm""", """        const size_t lnt    = vprm.size();
        const size_t offset = piol->comm->offset(lnt);
        PIOL::getMinMax(
          piol.get(), offset, lnt, vprm"""),
]
CASES = [('p25-' + n, 'P25', 'bug', f, a, b) for n, f, a, b in _b] + [('p25-s-' + n, 'ALL' if n in ('vprm', 'fset') else 'P25', 'same', f, a, b) for n, f, a, b in _s]
