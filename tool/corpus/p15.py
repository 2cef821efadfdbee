S = 'src/sort.cc'
SEC = "            for (size_t i = 0; i < t1.size(); i++) {\n                param_utils::cpyPrm(i, &temp3, i + edge1, &temp1);\n            }"
RED = "        int reduced = 0;\n        for (size_t j = 0; j < lnt && reduced == 0; j++) {\n            const auto param1 = param_utils::getPrm<exseis::utils::Integer>(\n              j, PIOL_META_gtn, &temp1);\n\n            const auto param2 = param_utils::getPrm<exseis::utils::Integer>(\n              j, PIOL_META_gtn, &temp2);\n\n            if (param1 != param2) {\n                reduced++;\n            }\n        }\n"
IS = "        if (greduced == 0) {\n            break;\n        }\n    }\n\n    for (size_t i = 0; i < lnt; i++) {\n        param_utils::cpyPrm(i, &temp1, i, prm);\n    }"
SL = "        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, prm, i, &sprm);\n        }"
T2 = "            std::vector<size_t> t1(temp1.size() - edge2);\n            std::iota(t1.begin(), t1.end(), 0);"
W1 = "        for (size_t i = 0; i < req1.size(); i++) {\n            err = MPI_Wait(&req1[i], &stat);\n"
TRED = "        for (size_t j = 0; j < lnt && !reduced; j++) {\n            reduced += (temp1[j] != temp2[j]);\n        }"
CASES = [
 ('p15-send', 'P15', 'bug', S, "param_utils::cpyPrm(i + prm->size() - regionSz, prm, i, &sprm);", "param_utils::cpyPrm(i + prm->size() - 2 * regionSz, prm, i, &sprm);"),
 ('p15-recv', 'P15', 'bug', S, "param_utils::cpyPrm(i, &rprm, i + prm->size() - regionSz, prm);", "param_utils::cpyPrm(i, &rprm, i, prm);"),
 ('p15-rev', 'P15', 'same', S, "param_utils::cpyPrm(i, &rprm, i + prm->size() - regionSz, prm);", "param_utils::cpyPrm(regionSz - 1 - i, &rprm, prm->size() - 1 - i, prm);"),
 ('p15-field', 'P15', 'bug', S, "          rprm.s.data(), rprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 1,", "          rprm.s.data(), rprm.i.size() * sizeof(short), MPI_CHAR, rank + 1, 1,"),
 ('p15-bytes', 'P15', 'bug', S, "rprm.t.data(), rprm.t.size() * sizeof(size_t), MPI_CHAR, rank + 1, 1,", "rprm.t.data(), rprm.t.size() * sizeof(int), MPI_CHAR, rank + 1, 1,"),
 ('p15-tag', 'P15', 'bug', S, "          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 1,", "          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank - 1, 0,"),
 ('p15-peer', 'P15', 'bug', S, "sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank + 1, 0,", "sprm.s.data(), sprm.s.size() * sizeof(short), MPI_CHAR, rank - 1, 0,"),
 ('p15-req', 'P15', 'bug', S, "          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0,\n          piol->comm->getComm(), &rsnd[4]);", "          sprm.c.data(), sprm.c.size(), MPI_CHAR, rank + 1, 0,\n          piol->comm->getComm(), &rsnd[3]);"),
 ('p15-wait', 'P15', 'bug', S, W1, W1.replace('i = 0', 'i = 1')),
 ('p15-waitarg', 'P15', 'bug', S, "    Wait(piol, rsnd, rrcv);\n\n    if (rank != 0) {\n        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, &rprm, i, prm);", "    Wait(piol, rrcv, rsnd);\n\n    if (rank != 0) {\n        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, &rprm, i, prm);"),
 ('p15-early', 'P15', 'bug', S, "    Wait(piol, rrcv, rsnd);\n\n    if (rank != piol->comm->getNumRank() - 1) {\n        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, &rprm, i + prm->size() - regionSz, prm);\n        }\n    }\n", "    if (rank != piol->comm->getNumRank() - 1) {\n        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, &rprm, i + prm->size() - regionSz, prm);\n        }\n    }\n    Wait(piol, rrcv, rsnd);\n"),
 ('p15-edge1', 'P15', 'bug', S, SEC, SEC.replace('i + edge1', 'i + edge2')),
 ('p15-edge2', 'P15', 'bug', S, T2, T2.replace('temp1.size() - edge2', 'temp1.size()')),
 ('p15-edge2b', 'P15', 'same', S, T2, T2.replace('temp1.size() - edge2', 'lnt')),
 ('p15-iota', 'P15', 'same', S, T2, "            std::vector<size_t> t1(lnt);\n            for (size_t k = 0; k < lnt; k++) {\n                t1[k] = k;\n            }"),
 ('p15-gtn', 'P15', 'bug', S, RED, RED.replace('PIOL_META_gtn', 'PIOL_META_il')),
 ('p15-lnt', 'P15', 'bug', S, RED, RED.replace('j < lnt', 'j < regionSz')),
 ('p15-lnt1', 'P15', 'bug', S, RED, RED.replace('j = 0', 'j = 1')),
 ('p15-break', 'P15', 'same', S, RED, RED.replace(' && reduced == 0', '').replace('reduced++;', 'reduced = 1;\n                break;')),
 ('p15-count', 'P15', 'same', S, RED, RED.replace(' && reduced == 0', '')),
 ('p15-and', 'P15', 'bug', S, "          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());\n\n        if (err != MPI_SUCCESS) {\n            piol->log->record(\n              \"\", Logger::Layer::Ops, Logger::Status::Error,\n              \"Sort MPI_Allreduce error: \"\n", "          &reduced, &greduced, 1, MPI_INT, MPI_MIN, piol->comm->getComm());\n\n        if (err != MPI_SUCCESS) {\n            piol->log->record(\n              \"\", Logger::Layer::Ops, Logger::Status::Error,\n              \"Sort MPI_Allreduce error: \"\n"),
 ('p15-max', 'P15', 'same', S, "          &reduced, &greduced, 1, MPI_INT, MPI_SUM, piol->comm->getComm());\n\n        if (err != MPI_SUCCESS) {\n            piol->log->record(\n              \"\", Logger::Layer::Ops, Logger::Status::Error,\n              \"Sort MPI_Allreduce error: \"\n", "          &reduced, &greduced, 1, MPI_INT, MPI_MAX, piol->comm->getComm());\n\n        if (err != MPI_SUCCESS) {\n            piol->log->record(\n              \"\", Logger::Layer::Ops, Logger::Status::Error,\n              \"Sort MPI_Allreduce error: \"\n"),
 ('p15-local', 'P15', 'bug', S, IS, IS.replace('greduced == 0', 'reduced == 0')),
 ('p15-copy', 'P15', 'bug', S, IS, IS.replace('(i, &temp1, i, prm)', '(i, &temp2, i, prm)').replace('i < lnt', 'i < edge1')),
 ('p15-loopinit', 'P15', 'same', S, "        temp2 = temp1;\n        sendLeft(piol, regionSz, &temp1);\n", "        sendLeft(piol, regionSz, &temp1);\n        temp2 = temp1;\n"),
 ('p15-left', 'P15', 'same', S, SL, "        for (size_t i = regionSz; i > 0; i--) {\n            param_utils::cpyPrm(i - 1, prm, i - 1, &sprm);\n        }"),
 ('p15-left2', 'P15', 'bug', S, SL, "        for (size_t i = 0; i + 1 < regionSz; i++) {\n            param_utils::cpyPrm(i, prm, i, &sprm);\n        }"),
 ('p15-size', 'P15', 'bug', S, "return (lnt < 4LU ? lnt / 2LU : lnt / 4LU);", "return (lnt < 4LU ? lnt : lnt / 4LU);"),
 ('p15-size4', 'P15', 'bug', S, "return (lnt < 4LU ? lnt / 2LU : lnt / 4LU);", "return lnt / 4LU;"),
 ('p15-sizemax', 'P15', 'same', S, "return (lnt < 4LU ? lnt / 2LU : lnt / 4LU);", "return (lnt < 2LU ? 0LU : std::max<size_t>(1LU, lnt / 4LU));"),
 ('p15-tbuf', 'P15', 'bug', S, "          &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 1,", "          dat.data(), cnt, MPI_CHAR, rank + 1, 1,"),
 ('p15-tcnt', 'P15', 'bug', S, "          &dat[dat.size() - regionSz], cnt, MPI_CHAR, rank + 1, 0,", "          &dat[dat.size() - regionSz], cnt / 2, MPI_CHAR, rank + 1, 0,"),
 ('p15-tred', 'P15', 'bug', S, TRED, TRED.replace('j < lnt', 'j + 1 < lnt')),
 ('p15-tred2', 'P15', 'same', S, TRED, TRED.replace(' && !reduced', '').replace('reduced += (temp1[j] != temp2[j]);', 'if (!(temp1[j] == temp2[j])) {\n                reduced = 1;\n            }')),
 ('p15-tedge', 'P15', 'bug', S, "            // default pair sorting is first then second\n            std::sort(temp1.begin() + edge1, temp1.end());", "            std::sort(temp1.begin() + edge1, temp1.begin() + lnt);"),
 ('p15-tloc', 'P15', 'bug', S, "    std::copy(dat.begin(), dat.end(), temp1.begin());", "    std::copy(dat.begin(), dat.end() - regionSz, temp1.begin());"),
 ('p15-tloop', 'P15', 'same', S, "    std::copy(dat.begin(), dat.end(), temp1.begin());", "    for (size_t i = 0; i < lnt; i++) {\n        temp1[i] = dat[i];\n    }"),
 ('p15-pos', 'P15', 'bug', S, "        plist[i].second = offset + i;", "        plist[i].second = i;"),
 ('p15-first', 'P15', 'bug', S, "        list[i] = plist[i].second;", "        list[i] = plist[i].first;"),
 ('p15-pair', 'P15', 'same', S, "        plist[i].first  = list[i];\n        plist[i].second = offset + i;", "        plist[i] = std::make_pair(list[i], offset + i);"),
 ('p15-order', 'P15', 'bug', S, "    return (FileOrder ? sort(piol, list) : list);", "    return (FileOrder ? list : sort(piol, list));"),
 ('p15-order2', 'P15', 'same', S, "    return (FileOrder ? sort(piol, list) : list);", "    if (!FileOrder) {\n        return list;\n    }\n    return sort(piol, list);"),
 ('p15-waitall', 'P15', 'same', S, "    Wait(piol, rsnd, rrcv);\n\n    if (rank != 0) {\n        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, &rprm, i, prm);", "    if (rank != piol->comm->getNumRank() - 1) {\n        MPI_Waitall(rsnd.size(), rsnd.data(), MPI_STATUSES_IGNORE);\n    }\n    if (rank != 0) {\n        MPI_Waitall(rrcv.size(), rrcv.data(), MPI_STATUSES_IGNORE);\n    }\n\n    if (rank != 0) {\n        for (size_t i = 0; i < regionSz; i++) {\n            param_utils::cpyPrm(i, &rprm, i, prm);"),
 ('p15-dowhile', 'P15', 'same', S, IS, IS.replace("        if (greduced == 0) {\n            break;\n        }\n", "        if (greduced != 0) {\n            continue;\n        }\n        break;\n")),
]
