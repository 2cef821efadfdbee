G = 'src/gather.cc'
_b = [
 ('and', G, "if (il != ill || xl != xll) {", "if (il != ill && xl != xll) {"),
 ('il', G, "if (il != ill || xl != xll) {", "if (il != ill) {"),
 ('upd', G, "            xll = xl;\n", ""),
 ('last', G, "for (size_t i = 1; i < prm->size(); i++) {", "for (size_t i = 1; i + 1 < prm->size(); i++) {"),
 ('swap', G, "lline.push_back({0LU, il, xl});", "lline.push_back({0LU, xl, il});"),
 ('front', G, "gather<size_t>(lline.back().inline_)", "gather<size_t>(lline.front().inline_)"),
 ('trc', G, "gather<size_t>(lline.front().num_traces)", "gather<size_t>(lline.back().num_traces)"),
 ('start', G, "      && xlb[rank - 1LU] == xlf[rank]) {", "      ) {"),
 ('next', G, "if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {", "if (ilb[rank] == ilf[i]) {"),
 ('count', G, "                if (count[i] > 1LU) {\n                    break;\n                }\n", ""),
 ('count2', G, "                if (count[i] > 1LU) {", "                if (count[i] > 2LU) {"),
 ('one', G, "for (size_t i = rank + 1LU; i < numRank; i++) {", "for (size_t i = rank + 1LU; i < rank + 2LU; i++) {"),
 ('empty', G, "size_t sz     = (empty ? 0LU : lline.size() - start);", "size_t sz     = lline.size() - start;"),
 ('off', G, "line.set(i + offset, lline[i + start]);", "line.set(i + offset, lline[i]);"),
 ('off2', G, "size_t offset = piol->comm->offset(sz);", "size_t offset = piol->comm->offset(lline.size());"),
 ('bar', G, "    piol->comm->barrier();\n", ""),
 ('dec', G, "file->readParam(dec.global_offset, dec.local_size, &prm);", "file->readParam(0LU, dec.local_size, &prm);"),
 ('rankbar', G, "    size_t offset = piol->comm->offset(sz);", "    size_t offset = (sz == 0LU ? 0LU : piol->comm->offset(sz));"),
 ('local', G, "piol->comm->sum(sz), piol->comm->getComm());", "sz, piol->comm->getComm());"),
]
_s = [
 ('helper', G, "        if (il != ill || xl != xll) {", "        const bool same = (il == ill && xl == xll);\n        if (!same) {"),
 ('while', G, "            for (size_t i = rank + 1LU; i < numRank; i++) {\n                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {\n                    lline.back().num_traces += trcnum[i];\n                }\n                else {\n                    break;\n                }\n\n                // The gather ends on this process if it has another.\n                if (count[i] > 1LU) {\n                    break;\n                }\n            }",
  "            size_t i = rank + 1LU;\n            while (i < numRank && ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {\n                lline.back().num_traces += trcnum[i];\n                if (count[i] > 1LU) {\n                    break;\n                }\n                i++;\n            }"),
 ('order', G, "    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);\n    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);", "    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);\n    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);"),
 ('drop', G, "    for (size_t i = 0; i < sz; i++) {\n        line.set(i + offset, lline[i + start]);\n    }", "    for (size_t i = start; i < start + sz; i++) {\n        line.set(offset + i - start, lline[i]);\n    }"),
 ('guard', G, "    if (start < lline.size()) {\n        if (\n          rank + 1LU", "    if (start != lline.size()) {\n        if (\n          rank + 1LU"),
]
CASES = [('p19-' + t[0], 'P19', 'bug') + t[1:4] for t in _b] + [('p19-' + t[0], 'P19', 'same') + t[1:4] for t in _s]
