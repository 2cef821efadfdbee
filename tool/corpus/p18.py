R = 'src/Rule.cc'
PU = 'src/param_utils.cc'
H = 'include/ExSeisDat/PIOL/param_utils.hh'
CASES = [
 ('p18-rm-count', 'P18', 'bug', R, "                numShort--;\n                break;\n\n            case RuleEntry::MdType::Float:\n                numFloat--;", "                numShort--;\n                break;\n\n            case RuleEntry::MdType::Float:\n                numShort--;"),
 ('p18-rm-type', 'P18', 'bug', R, "if (t.second->type() == type && t.second->num > num)", "if (t.second->num > num)"),
 ('p18-rm-first', 'P18', 'bug', R, "        translate.erase(m);\n        for (auto t", "        for (auto t"),
 ('p18-rm-ge', 'P18', 'same', R, "t.second->num > num", "t.second->num >= num"),
 ('p18-rm-lt', 'P18', 'bug', R, "t.second->num > num", "t.second->num < num"),
 ('p18-rm-leak', 'P18', 'bug', R, "        delete entry;\n", ""),
 ('p18-add-pre', 'P18', 'bug', R, "new SEGYShortRuleEntry(numShort++, loc)", "new SEGYShortRuleEntry(++numShort, loc)"),
 ('p18-add-norm', 'P18', 'bug', R, "    auto ent = translate.find(m);\n    if (ent != translate.end()) {\n        rmRule(m);\n    }\n\n    translate[m] = new SEGYLongRuleEntry", "    translate[m] = new SEGYLongRuleEntry"),
 ('p18-add-order', 'P18', 'bug', R, "    auto ent = translate.find(m);\n    if (ent != translate.end()) {\n        rmRule(m);\n    }\n\n    translate[m] = new SEGYLongRuleEntry(numLong++, loc);", "    size_t n = numLong++; auto ent = translate.find(m);\n    if (ent != translate.end()) {\n        rmRule(m);\n    }\n\n    translate[m] = new SEGYLongRuleEntry(n, loc);"),
 ('p18-add-rm', 'P18', 'same', R, "    auto ent = translate.find(m);\n    if (ent != translate.end()) {\n        rmRule(m);\n    }\n\n    translate[m] = new SEGYLongRuleEntry(numLong++, loc);", "    rmRule(m);\n    const size_t n = numLong;\n    numLong += 1;\n    auto* entry = new SEGYLongRuleEntry(n, loc);\n    translate.emplace(m, entry);"),
 ('p18-add-count', 'P18', 'same', R, "    auto ent = translate.find(m);\n    if (ent != translate.end()) {\n        rmRule(m);\n    }\n\n    translate[m] = new SEGYShortRuleEntry(numShort++, loc);", "    if (translate.count(m) != 0) {\n        rmRule(m);\n    }\n    translate[m] = new SEGYShortRuleEntry(numShort, loc);\n    ++numShort;"),
 ('p18-scal', 'P18', 'bug', R, "SEGYFloatRuleEntry(numFloat++, loc, scalLoc)", "SEGYFloatRuleEntry(numFloat++, scalLoc, loc)"),
 ('p18-merge-over', 'P18', 'bug', R, "        if (translate.find(m.first) == translate.end()) {\n", "        {\n"),
 ('p18-merge-type', 'P18', 'bug', R, "                    addShort(m.first, static_cast<Tr>(m.second->loc));", "                    addLong(m.first, static_cast<Tr>(m.second->loc));"),
 ('p18-copy-twice', 'P18', 'bug', R, "    if (numCopy == 0) {\n", "    {\n"),
 ('p18-param', 'P18', 'bug', 'src/Param.cc', "s.resize(sz * r->numShort)", "s.resize(sz * r->numLong)"),
 ('p18-mem', 'P18', 'bug', R, "+ (numCopy != 0 ? SEGY_utils::getMDSz() : 0)", "+ numCopy"),
 ('p18-get', 'P18', 'bug', H, "return T(prm->s[r->numShort * i + id->num]);", "return T(prm->s[r->numLong * i + id->num]);"),
 ('p18-set', 'P18', 'bug', H, "prm->t[r->numIndex * i + id->num] = ret;\n", "prm->t[r->numIndex * i] = ret;\n"),
 ('p18-set2', 'P18', 'bug', H, "            prm->i[r->numLong * i + id->num] = ret;\n            break;\n", "            prm->i[r->numLong * i + id->num] = ret;\n"),
 ('p18-cpy-idx', 'P18', 'bug', PU, "dst->t[k * r->numIndex + i] = src->t[j * r->numIndex + i];", "dst->t[k * r->numIndex + i] = src->t[k * r->numIndex + i];"),
 ('p18-cpy-num', 'P18', 'bug', PU, "src->s[srule->numShort * j + sent->num]", "src->s[srule->numShort * j + dent->num]"),
 ('p18-cpy-cnt', 'P18', 'bug', PU, "dst->i[drule->numLong * k + dent->num]", "dst->i[srule->numLong * k + dent->num]"),
 ('p18-cpy-type', 'P18', 'bug', PU, "if (dent->type() == sent->type()) {", "{"),
 ('p18-cpy-find', 'P18', 'bug', PU, "if (valit != drule->translate.end()) {", "{"),
 ('p18-cpy-order', 'P18', 'bug', PU, "for (size_t i = 0; i < r->numFloat; i++) {", "for (size_t i = 1; i < r->numFloat; i++) {"),
 ('p18-cpy-std', 'P18', 'same', PU, "        for (size_t i = 0; i < r->numFloat; i++) {\n            dst->f[k * r->numFloat + i] = src->f[j * r->numFloat + i];\n        }", "        std::copy(&src->f[j * r->numFloat], &src->f[j * r->numFloat] + r->numFloat, &dst->f[k * r->numFloat]);"),
 ('p18-cpy-cont', 'P18', 'same', PU, "            if (valit != drule->translate.end()) {\n\n                RuleEntry* dent", "            if (valit == drule->translate.end()) {\n                continue;\n            }\n            {\n                RuleEntry* dent"),
]
