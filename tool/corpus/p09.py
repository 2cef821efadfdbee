R = 'src/Rule.cc'
U = 'src/segy_utils.cc'
T = 'include/ExSeisDat/PIOL/Tr.hh'
E = 'include/ExSeisDat/PIOL/SEGYRuleEntry.hh'
CASES = [
 ('p09-swap', 'P09', 'bug', R, "addSEGYFloat(m, PIOL_TR_xRcv, PIOL_TR_ScaleCoord)", "addSEGYFloat(m, PIOL_TR_xSrc, PIOL_TR_ScaleCoord)"),
 ('p09-wid', 'P09', 'bug', R, "addShort(m, PIOL_TR_TransUnit)", "addLong(m, PIOL_TR_TransUnit)"),
 ('p09-scal', 'P09', 'bug', R, "addSEGYFloat(m, PIOL_TR_WtrDepRcv, PIOL_TR_ScaleElev)", "addSEGYFloat(m, PIOL_TR_WtrDepRcv, PIOL_TR_ScaleCoord)"),
 ('p09-def', 'P09', 'bug', R, "PIOL_META_xl,   PIOL_META_tn}", "PIOL_META_xl}"),
 ('p09-extra', 'P09', 'bug', R, "PIOL_META_SSElev,  PIOL_META_SDElev, ", "PIOL_META_SDElev,  PIOL_META_SDElev, "),
 ('p09-flags', 'P09', 'bug', R, "Rule({}, full, defaults, extras)", "Rule({}, full, extras, defaults)"),
 ('p09-gtn', 'P09', 'bug', R, "    addIndex(PIOL_META_gtn);\n", ""),
 ('p09-swapdef', 'P09', 'bug', R, "    if (extras) {\n        for (auto m : extra_metas)", "    if (extras && !defaults) {\n        for (auto m : extra_metas)"),
 ('p09-twice', 'P09', 'bug', R, "    if (translate.find(m) != translate.end()) {\n        return false;\n    }\n\n    switch (m)", "    switch (m)"),
 ('p09-full', 'P09', 'bug', R, "    if (flag.fullextent) {\n        start          = 0LU;\n        end            = SEGY_utils::getMDSz();\n        flag.badextent = false;", "    if (flag.fullextent) {\n        start          = 1LU;\n        end            = SEGY_utils::getMDSz();\n        flag.badextent = false;"),
 ('p09-ext', 'P09', 'bug', R, "    if (flag.fullextent) {\n        return SEGY_utils::getMDSz();\n    }\n", "    if (flag.fullextent && !flag.badextent) {\n        return end;\n    }\n"),
 ('p09-loc', 'P09', 'bug', U, "const size_t loc = t->loc - start - 1LU;", "const size_t loc = t->loc - start;"),
 ('p09-str', 'P09', 'bug', U, "unsigned char* md = &buf[(r->extent() + stride) * i];\n\n// C", "unsigned char* md = &buf[r->extent() * i + stride];\n\n// C"),
 ('p09-skip', 'P09', 'bug', U, "find_scalar(prm->f[(i + skip) * r->numFloat + t->num])", "find_scalar(prm->f[i * r->numFloat + t->num])"),
 ('p09-skips', 'P09', 'bug', U, "to_big_endian(prm->s[(i + skip) * r->numShort + t->num])", "to_big_endian(prm->s[i * r->numShort + t->num])"),
 ('p09-num', 'P09', 'bug', U, "int32_t(prm->i[(i + skip) * r->numLong + t->num])", "int32_t(prm->i[(i + skip) * r->numShort + t->num])"),
 ('p09-w16', 'P09', 'bug', U, "to_big_endian<int32_t>(\n                      int32_t(prm->i", "to_big_endian<int16_t>(\n                      int16_t(prm->i"),
 ('p09-or', 'P09', 'bug', U, "((scal1 > 1 || scal2 > 1) ?", "((scal1 > 1 && scal2 > 1) ?"),
 ('p09-max', 'P09', 'bug', U, "std::min(scal1, scal2));", "std::max(scal1, scal2));"),
 ('p09-mul', 'P09', 'bug', U, "rule[j]->num] / gscale", "rule[j]->num] * gscale"),
 ('p09-trunc', 'P09', 'bug', U, "to_big_endian(int32_t(std::lround(\n              prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)))", "to_big_endian(int32_t(\n              prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale))"),
 ('p09-gs', 'P09', 'bug', U, "parse_scalar(scal[static_cast<Tr>(rule[j]->scalLoc)])", "parse_scalar(scal[static_cast<Tr>(rule[0]->scalLoc)])"),
 ('p09-copy', 'P09', 'bug', U, "&prm->c[(skip + i + 1LU) * SEGY_utils::getMDSz()],", "&prm->c[(skip + i + 1LU) * SEGY_utils::getMDSz() - 1],"),
 ('p09-copy2', 'P09', 'bug', U, "&buf[i * (stride + mdsz)], &buf[i * (stride + mdsz) + mdsz],", "&buf[i * stride], &buf[i * stride + mdsz],"),
 ('p09-copy3', 'P09', 'bug', U, "buf, &buf[sz * SEGY_utils::getMDSz()],\n              &prm->c[skip * SEGY_utils::getMDSz()]);", "buf, &buf[sz * SEGY_utils::getMDSz()],\n              &prm->c[0]);"),
 ('p09-after', 'P09', 'bug', U, "&md[size_t(s.first) - start - 1LU]", "&md[size_t(s.first) - start + 1LU]"),
 ('p09-xl', 'P09', 'bug', U, "const size_t scalar_offset =\n                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - r->start\n                      - 1LU;", "const size_t scalar_offset =\n                      dynamic_cast<SEGYFloatRuleEntry*>(t)->scalLoc - r->start;"),
 ('p09-xb', 'P09', 'bug', U, "from_big_endian<int16_t>(md[loc + 0], md[loc + 1])", "from_big_endian<int16_t>(md[loc + 1], md[loc + 0])"),
 ('p09-xu', 'P09', 'bug', U, "from_big_endian<int16_t>(md[loc + 0], md[loc + 1])", "from_big_endian<uint16_t>(md[loc + 0], md[loc + 1])"),
 ('p09-xi', 'P09', 'bug', U, "prm->i[(i + skip) * r->numLong + t->num] =\n                      from_", "prm->i[i * r->numLong + t->num + skip] =\n                      from_"),
 ('p09-ps', 'P09', 'bug', U, "return 1 / static_cast<exseis::utils::Floating_point>(-segy_scalar);", "return static_cast<exseis::utils::Floating_point>(-segy_scalar);"),
 ('p09-ps0', 'P09', 'bug', U, "    if (segy_scalar == 0) {\n        segy_scalar = 1;\n    }\n", ""),
 ('p09-ps1', 'P09', 'bug', U, "    if (segy_scalar > 0) {\n        return static", "    if (segy_scalar > 1) {\n        return static"),
 ('p09-s-skipped', 'P09', 'same', U, "    for (size_t i = 0; i < sz; i++) {\n        unsigned char* md = &buf[(r->extent() + stride) * i];\n", "    const size_t hd = r->extent() + stride;\n    for (size_t i = 0; i < sz; ++i) {\n        unsigned char* md = buf + hd * i;\n"),
 ('p09-s-neg', 'P09', 'same', U, "    if (segy_scalar > 0) {\n        return static_cast<exseis::utils::Floating_point>(segy_scalar);\n    }\n\n    // Negative segy_scalar represents division by value\n    return 1 / static_cast<exseis::utils::Floating_point>(-segy_scalar);", "    if (segy_scalar < 0) {\n        return 1 / static_cast<exseis::utils::Floating_point>(-segy_scalar);\n    }\n    return static_cast<exseis::utils::Floating_point>(segy_scalar);"),
 ('p09-s-rj', 'P09', 'same', U, "        for (size_t j = 0; j < rule.size(); j++) {\n            exseis::utils::Floating_point gscale =\n              parse_scalar(scal[static_cast<Tr>(rule[j]->scalLoc)]);\n\n            const auto be = to_big_endian(int32_t(std::lround(\n              prm->f[(i + skip) * r->numFloat + rule[j]->num] / gscale)));\n\n            std::copy(\n              std::begin(be), std::end(be), &md[rule[j]->loc - start - 1LU]);", "        for (const auto* rj : rule) {\n            const auto gscale = parse_scalar(scal[static_cast<Tr>(rj->scalLoc)]);\n            const auto be = to_big_endian(int32_t(std::lround(\n              prm->f[(i + skip) * r->numFloat + rj->num] / gscale)));\n            std::copy(be.begin(), be.end(), md + (rj->loc - start - 1LU));"),
 ('p09-s-scal', 'P09', 'same', U, "                    const int16_t scal1 =\n                      (scal.find(tr) != scal.end() ? scal[tr] : 1);", "                    int16_t scal1 = 1;\n                    const auto it = scal.find(tr);\n                    if (it != scal.end()) scal1 = it->second;"),
 ('p09-s-if', 'P09', 'same', U, "                    scal[tr] =\n                      ((scal1 > 1 || scal2 > 1) ? std::max(scal1, scal2) :\n                                                  std::min(scal1, scal2));", "                    if (scal1 > 1 || scal2 > 1) {\n                        scal[tr] = std::max(scal1, scal2);\n                    }\n                    else {\n                        scal[tr] = std::min(scal1, scal2);\n                    }"),
 ('p09-s-md', 'P09', 'same', U, "    for (size_t i = 0; i < sz; i++) {\n\n        const unsigned char* md = &buf[(r->extent() + stride) * i];\n", "    const unsigned char* md = buf;\n    for (size_t i = 0; i < sz; i++, md += r->extent() + stride) {\n"),
 ('p09-s-rule', 'P09', 'same', R, "        case PIOL_META_il:\n            addLong(m, PIOL_TR_il);\n            break;\n\n        case PIOL_META_xl:\n            addLong(m, PIOL_TR_xl);\n            break;\n", "        case PIOL_META_il:\n        case PIOL_META_xl:\n            addLong(m, m == PIOL_META_il ? PIOL_TR_il : PIOL_TR_xl);\n            break;\n"),
 ('p09-s-early', 'P09', 'same', R, "        case PIOL_META_TransUnit:\n            addShort(m, PIOL_TR_TransUnit);\n            break;\n\n        default:\n            return false;\n            break;  // Non-default\n    }\n\n    return true;", "        case PIOL_META_TransUnit:\n            addShort(m, PIOL_TR_TransUnit);\n            return true;\n\n        default:\n            return false;\n    }\n\n    return true;"),
 ('p09-s-lists', 'P09', 'same', R, "    for (auto m : mlist) {\n        addRule(m);\n    }\n\n    if (defaults) {\n        for (auto m : default_metas) {\n            addRule(m);\n        }\n    }", "    for (size_t i = 0; i < mlist.size(); i++) {\n        addRule(mlist[i]);\n    }\n\n    if (defaults) {\n        std::for_each(default_metas.begin(), default_metas.end(), [this](Meta m) { addRule(m); });\n    }"),
]
