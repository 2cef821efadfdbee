F = 'src/Flow/Set.cc'
H = 'include/ExSeisDat/Flow/Set.hh'
K = 'src/Flow/Cache.cc'
A = 'src/Flow/RadonGatherState.cc'
_b = [
 # adding
 ('add-rank', F, "f->ifc->readNt(), piol->comm->getNumRank(), piol->comm->getRank());", "f->ifc->readNt(), piol->comm->getNumRank(), 0);"),
 ('add-off', F, "    off += f->ifc->readNt();\n", "    off += dec.local_size;\n"),
 ('add-off0', F, "std::iota(f->olst.begin(), f->olst.end(), off + dec.global_offset);", "std::iota(f->olst.begin(), f->olst.end(), dec.global_offset);"),
 ('add-off1', F, "    off += f->ifc->readNt();\n", "    off = f->ifc->readNt();\n"),
 ('add-key', F, "      f->ifc->readNs(), f->ifc->readInc());\n    fmap[key]", "      f->ifc->readNs(), 0.0);\n    fmap[key]"),
 ('add-glob', F, "for (size_t i = 0; i < globs.gl_pathc; i++)", "for (size_t i = 1; i < globs.gl_pathc; i++)"),
 # chain
 ('chain-stop', F, "    if (fCurr == fEnd || !(*fCurr)->opt.check(type)) {\n        return bIn;", "    if (fCurr == fEnd) {\n        return bIn;"),
 ('chain-same', F, "                  ->func(bIn.get(), bOut.get());", "                  ->func(bIn.get(), bIn.get());"),
 ('chain-drop', F, "                bIn        = std::move(bOut);\n", ""),
 ('chain-gnum', F, "                bOut->gNum = bIn->gNum;\n", ""),
 ('chain-skip', F, "    return calcFunc(++fCurr, fEnd, type, std::move(bIn));", "    ++fCurr;\n    if (fCurr != fEnd) ++fCurr;\n    return calcFunc(fCurr, fEnd, type, std::move(bIn));"),
 # single
 ('single-out', F, "                    sortlist[j] = f->olst[i + sortlist[j]];", "                    sortlist[j] = f->olst[sortlist[j]];"),
 ('single-hdr', F, "param_utils::cpyPrm(sortlist[j], &prm, j, bIn->prm.get());", "param_utils::cpyPrm(j, &prm, j, bIn->prm.get());"),
 ('single-smp', F, "bIn->trc[j * ns + k] = trc[sortlist[j] * ns + k];", "bIn->trc[j * ns + k] = trc[j * ns + k];"),
 ('single-read', F, "rblock, f->ilst.data() + i, trc.data(), &prm);", "rblock, f->ilst.data(), trc.data(), &prm);"),
 ('single-last', F, "(i + max < lnt ? max : lnt - i)", "(i + max <= lnt ? max : lnt % max)", 'same'),
 ('single-last2', F, "(i + max < lnt ? max : lnt - i)", "(i + max < lnt ? max : lnt % max)"),
 ('single-extra', F, "                           - (lnt / max + static_cast<size_t>(lnt % max > 0));", "                           - lnt / max;"),
 ('single-extra2', F, "            size_t extra = biggest / max\n                           + static_cast<size_t>(biggest % max > 0)\n", "            size_t extra = biggest / max + 1\n", 'same'),
 ('single-inc', F, "                bIn->inc = inc;\n\n                for", "                bIn->inc = ns;\n\n                for"),
 ('single-raw', F, "                  rblock, sortlist.data(), bFinal->trc.data(),\n                  bFinal->prm.get());", "                  rblock, sortlist.data(), trc.data(),\n                  bFinal->prm.get());"),
 ('single-name', F, "        if (fQue.size() == 1 && fmap.size() == 1) {", "        if (fQue.size() == 1) {"),
 ('single-name2', F, "outfix + std::to_string(ns) + \"_\" + std::to_string(inc) + \".segy\";\n        }\n\n        names", "outfix + std::to_string(ns) + \".segy\";\n        }\n\n        names"),
 ('single-ret', F, "        names.push_back(name);\n\n        std", "        std"),
 ('single-empty', F, "            return std::vector<std::string>{};\n        }\n\n        size_t ns ", "            continue;\n        }\n\n        size_t ns ", 'same'),
 ('single-text', F, "        out->writeText(outmsg);\n", ""),
 ('single-perm', F, "getSortIndex(rblock, f->olst.data() + i);", "getSortIndex(rblock, f->olst.data());"),
 # gather
 ('gat-nums', F, "gNums.push_back(i * numRank + rank);", "gNums.push_back(gdec.global_offset + i);"),
 ('gat-ioff', F, "            iOffset += piol->comm->sum(iGSz);", "            iOffset += iGSz;"),
 ('gat-woff', F, "            wOffset += piol->comm->sum(bOut->prm->size());", "            wOffset += piol->comm->sum(iGSz);"),
 ('gat-woff2', F, "size_t woff = piol->comm->offset(bOut->prm->size());", "size_t woff = piol->comm->offset(iGSz);"),
 ('gat-order', F, "              wOffset + woff, bOut->prm->size(),", "              woff, bOut->prm->size(),"),
 ('gat-gnum', F, "            bIn->gNum = ig++;", "            bIn->gNum = gNum;"),
 ('gat-gnum2', F, "            bIn->gNum = ig++;", "            bIn->gNum = ++ig;"),
 ('gat-extra', F, "size_t extra   = piol->comm->max(numGather) - numGather;", "size_t extra   = 0LU;"),
 ('gat-ns', F, "            // For simplicity, the output is now\n            out->writeNs(bOut->ns);\n", "            out->writeNs(o->ifc->readNs());\n"),
 ('gat-state', F, "             fTemp != fEnd && (*fTemp)->opt.check(FuncOpt::Gather); fTemp++) {", "             fTemp == fCurr; fTemp++) {"),
 ('gat-re', F, "    bool rewrite = file.size() > 1LU;\n    for (auto& f : file) {\n        rewrite = rewrite || f->ilst != f->olst;\n    }\n", "    bool rewrite = file.size() > 1LU;\n"),
 ('gat-re2', F, "    bool rewrite = file.size() > 1LU;\n", "    bool rewrite = file.size() > 2LU;\n"),
 ('gat-redrop', F, "        outfix                         = tOutfix;\n        drop();\n        for (std::string n : names) {\n            // TODO", "        outfix                         = tOutfix;\n        for (std::string n : names) {\n            // TODO"),
 ('gat-name', F, "        if (file.size() > 1LU) {\n            gname +=", "        if (file.size() > 2LU) {\n            gname +="),
 ('gat-next', F, "        for (std::string n : gnames) {\n            add(n);\n        }", "        add(gnames.back());"),
 ('gat-tmp', F, "(fTemp != fEnd ? \"gtemp\" : outfix)", "(fTemp == fEnd ? \"gtemp\" : outfix)"),
 # subset
 ('sub-copy', F, "          trlist.begin() + j, trlist.begin() + j + f->olst.size(),\n          f->olst.begin());\n        j += f->olst.size();", "          trlist.begin(), trlist.begin() + f->olst.size(),\n          f->olst.begin());\n        j += f->olst.size();"),
 ('sub-fail', F, "        if (j + f->olst.size() > trlist.size()) {\n            break;\n        }\n", ""),
 ('sub-more', F, "            return calcFuncS(fCurr, fEnd, fQue);", "            return ++fCurr;"),
 ('sub-rule', F, "cache.cachePrm((*fCurr)->rule, fQue);", "cache.cachePrm(rule, fQue);"),
 # dispatch
 ('disp-name', F, "            outfix = \"stemp\" + std::to_string(std::distance(fTemp, fEnd));", "            outfix = \"stemp\";"),
 ('disp-drop', F, "            outfix                         = tOutfix;\n            drop();", "            outfix                         = tOutfix;"),
 ('disp-all', F, "startSingle(fCurr, fTemp);", "startSingle(fCurr, fEnd);", 'same'),
 ('disp-skip', F, "            for (; fCurr != fEnd; ++fCurr) {\n                if (!(*fCurr)->opt.check(FuncOpt::Gather)) {\n                    break;\n                }\n            }", "            ++fCurr;"),
 ('disp-res', F, "                outfix                         = tOutfix;" , "", 'skip'),
 # output
 ('out-clear', F, "    func.clear();\n\n    // The", "    // The"),
 ('out-name', F, "    outfix                       = oname;\n", "    if (outfix.empty()) outfix = oname;\n"),
 ('out-twice', F, "    outfix.clear();\n\n    return out;", "    return out;"),
 ('out-front', F, "    func.emplace_back(std::make_shared<Op<InPlaceMod>>(\n      opt, nullptr, nullptr,", "    func.emplace_front(std::make_shared<Op<InPlaceMod>>(\n      opt, nullptr, nullptr,"),
 ('drop-off', H, "        offmap.clear();\n", ""),
 # operations
 ('op-taper', F, "auto* trace_i = &(in->trc[i * trace_length]);", "auto* trace_i = &(in->trc[i]);"),
 ('op-taper2', F, "trace_length, trace_i, taper_function, nTailLft, nTailRt);", "trace_length, trace_i, taper_function, nTailRt, nTailLft);"),
 ('op-agc', F, "for (size_t i = 0; i < num_traces; i++) {", "for (size_t i = 1; i < num_traces; i++) {"),
 ('op-agc2', F, "    OpOpt opt = {FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal,\n                 FuncOpt::SingleTrace};\n\n", "    OpOpt opt = {FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal,\n                 FuncOpt::Gather};\n\n"),
 ('op-flt', F, "            winCntr, corners, N);", "            winCntr, corners, nw);"),
 ('op-flt2', F, "            in->prm->size(), in->ns, in->trc.data(), fs, type, domain, pad, nw,\n            winCntr, corners);", "            in->prm->size(), in->ns, in->trc.data(), fs, type, domain, pad, winCntr,\n            nw, corners);"),
 ('op-sort', F, "return PIOL::sort(piol.get(), in->prm.get(), sortFunc);", "PIOL::sort(piol.get(), in->prm.get(), sortFunc);\n              return std::vector<size_t>{};"),
 ('op-sortrule', F, "      opt, r, nullptr, [this, sortFunc]", "      opt, rule, nullptr, [this, sortFunc]"),
 ('op-addrule', F, "    rule->addRule(*r);\n", ""),
 ('op-ang', F, "if (k > 0 && size_t(k) < iGSz) {", "if (k > 0) {"),
 ('op-ang2', F, "[in->gNum * state->vNs\n", "[0 * state->vNs\n"),
 ('op-ang3', F, "j, PIOL_META_xl, state->xl[in->gNum], out->prm.get());", "j, PIOL_META_xl, state->il[in->gNum], out->prm.get());"),
 ('op-ang4', F, "                           state->vNs - 1)];", "                           state->vNs)];"),
 ('op-ang5', F, "out->trc[j * out->ns + z] = in->trc[k * in->ns + z];", "out->trc[j * out->ns + z] = in->trc[j * in->ns + z];"),
 ('st-il', A, "        il[i]     = gval.inline_;", "        il[i]     = gval.crossline;"),
 ('st-val', A, "auto gval = gather[offset[i]];", "auto gval = gather[i];"),
 # cache
 ('ca-loff', K, "            loff += f->ilst.size();", "            loff = f->ilst.size();"),
 ('ca-gtn', K, "loff + i, PIOL_META_gtn, off + loff + i, prm.get());", "loff + i, PIOL_META_gtn, off + i, prm.get());"),
 ('ca-off', K, "size_t off = piol->comm->offset(lnt);", "size_t off = piol->comm->offset(nt);"),
 ('ca-prm', K, "it == cache.end() || !it->block || !it->block->prm || missing(*it)", "it == cache.end() || !it->block || missing(*it)", 'same'),
 ('gat-skip', F, "        size_t ig      = 0;\n        for (size_t gNum : gNums) {\n            auto gval         = gather[gNum];", "        for (size_t ig = 0; ig < gNums.size(); ig++) {\n            auto gval         = gather[gNums[ig]];"),
]
_s = [
 ('r-add1', F, "    auto& off = offmap[key];\n    std::iota(f->olst.begin(), f->olst.end(), off + dec.global_offset);\n    off += f->ifc->readNt();", "    const size_t first = offmap[key];\n    for (size_t i = 0; i < f->olst.size(); i++) {\n        f->olst[i] = f->ilst[i] + first;\n    }\n    offmap[key] = first + f->ifc->readNt();"),
 ('r-add2', F, "    file.emplace_back(std::make_shared<FileDesc>());\n    auto& f = file.back();\n    f->ifc  = std::move(in);\n", "    auto f = std::make_shared<FileDesc>();\n    f->ifc = std::move(in);\n    file.push_back(f);\n"),
 ('r-add3', F, "f->ifc->readNt(), piol->comm->getNumRank(), piol->comm->getRank());", "f->ifc->readNt(), numRank, rank);"),
 ('r-chain', F, "    return calcFunc(++fCurr, fEnd, type, std::move(bIn));", "    auto next = std::next(fCurr);\n    return calcFunc(next, fEnd, type, std::move(bIn));"),
 ('r-blk', F, "                size_t rblock = (i + max < lnt ? max : lnt - i);", "                const size_t rblock = std::min(max, lnt - i);"),
 ('r-copy', F, "                    for (size_t k = 0LU; k < ns; k++) {\n                        bIn->trc[j * ns + k] = trc[sortlist[j] * ns + k];\n                    }\n", "                    const size_t from = sortlist[j] * ns;\n                    std::copy(trc.begin() + from, trc.begin() + from + ns, bIn->trc.begin() + j * ns);\n"),
 ('r-extra', F, "            size_t extra = biggest / max\n                           + static_cast<size_t>(biggest % max > 0)\n                           - (lnt / max + static_cast<size_t>(lnt % max > 0));", "            auto rounds  = [max](size_t n) { return (n + max - 1) / max; };\n            size_t extra = rounds(biggest) - rounds(lnt);"),
 ('r-sep', F, "                    sortlist[j] = f->olst[i + sortlist[j]];\n                }\n", "                }\n                for (auto& s : sortlist) {\n                    s = f->olst[i + s];\n                }\n"),
 ('r-gnum', F, "        for (size_t i = 0; i < numGather; i++) {\n            gNums.push_back(i * numRank + rank);\n        }", "        for (size_t g = rank; g < gather.size(); g += numRank) {\n            gNums.push_back(g);\n        }"),
 ('r-gloop2', F, "            bIn->gNum = ig++;", "            bIn->gNum = ig;\n            ig++;"),
 ('r-gsize', F, "            size_t woff = piol->comm->offset(bOut->prm->size());", "            const size_t oGSz = bOut->prm->size();\n            size_t woff = piol->comm->offset(oGSz);"),
 ('r-disp', F, "            for (; fCurr != fEnd; ++fCurr) {\n                if (!(*fCurr)->opt.check(FuncOpt::Gather)) {\n                    break;\n                }\n            }", "            while (fCurr != fEnd && (*fCurr)->opt.check(FuncOpt::Gather)) {\n                ++fCurr;\n            }"),
 ('r-sub', F, "    size_t j = 0;\n    for (auto& f : fQue) {\n        if (j + f->olst.size() > trlist.size()) {\n            break;\n        }\n        std::copy(\n          trlist.begin() + j, trlist.begin() + j + f->olst.size(),\n          f->olst.begin());\n        j += f->olst.size();\n    }", "    if (!trlist.empty()) {\n        size_t j = 0;\n        for (auto& f : fQue) {\n            for (size_t i = 0; i < f->olst.size(); i++) {\n                f->olst[i] = trlist[j++];\n            }\n        }\n    }"),
 ('r-taper', F, "          for (size_t i = 0; i < in->prm->size(); i++) {\n\n              const auto trace_length = in->ns;\n\n              auto* trace_i = &(in->trc[i * trace_length]);", "          const auto trace_length = in->ns;\n          const size_t count = in->prm->size();\n          for (size_t i = 0; i < count; i++) {\n              auto* trace_i = in->trc.data() + i * trace_length;"),
 ('r-taper2', F, "    OpOpt opt = {FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal,\n                 FuncOpt::SingleTrace};\n    func.emplace_back(std::make_shared<Op<InPlaceMod>>(\n      opt, rule, nullptr,\n      [taper_function", "    OpOpt opt = {FuncOpt::SingleTrace, FuncOpt::NeedTrcVal, FuncOpt::ModTrcVal, FuncOpt::DepTrcVal};\n    func.push_back(std::make_shared<Op<InPlaceMod>>(\n      opt, rule, nullptr,\n      [taper_function"),
 ('r-sort', F, "          if (piol->comm->min(in->prm->size()) < 3LU) {", "          const size_t fewest = piol->comm->min(in->prm->size());\n          if (fewest < 3LU) {"),
 ('r-ang', F, "                  if (k > 0 && size_t(k) < iGSz) {\n                      out->trc[j * out->ns + z] = in->trc[k * in->ns + z];\n                  }", "                  if (k <= 0 || size_t(k) >= iGSz) {\n                      continue;\n                  }\n                  out->trc[j * out->ns + z] = in->trc[k * in->ns + z];"),
 ('r-out', F, "    outfix                       = oname;\n    std::vector<std::string> out = calcFunc(func.begin(), func.end());\n    func.clear();\n\n    // The output has been written, so there is none left for the destructor.\n    outfix.clear();\n\n    return out;", "    outfix = oname;\n    const auto out = calcFunc(func.begin(), func.end());\n    outfix.clear();\n    func.clear();\n    return out;"),
 ('r-cache', K, "            for (size_t i = 0LU; i < f->ilst.size(); i++) {\n                param_utils::setPrm(\n                  loff + i, PIOL_META_gtn, off + loff + i, prm.get());", "            const size_t flnt = f->ilst.size();\n            for (size_t i = 0LU; i < flnt; i++) {\n                const size_t k = loff + i;\n                param_utils::setPrm(k, PIOL_META_gtn, off + k, prm.get());"),
 ('r-name', F, "        if (fQue.size() == 1 && fmap.size() == 1) {\n            name = outfix + \".segy\";\n        }\n        else {\n            name =\n              outfix + std::to_string(ns) + \"_\" + std::to_string(inc) + \".segy\";\n        }", "        name = outfix;\n        if (fQue.size() != 1 || fmap.size() != 1) {\n            name += std::to_string(ns) + \"_\" + std::to_string(inc);\n        }\n        name += \".segy\";"),
]
CASES = [('p24-' + t[0], 'P24', t[4] if len(t) > 4 else 'bug') + t[1:4] for t in _b if not (len(t) > 4 and t[4] == 'skip')]
CASES += [('p24-' + t[0], 'P24', 'same') + t[1:4] for t in _s]
