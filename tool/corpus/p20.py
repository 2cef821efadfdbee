F = 'src/ReadSEGYModel.cc'
_b = [
 ('one', F, "(nt > 1 ? 1LU : 0LU), nt", "1LU, nt"),
 ('last', F, "(nt > 1 ? 1LU : 0LU), nt - 1LU}", "(nt > 1 ? 1LU : 0LU), size_t(nt)}"),
 ('cnt', F, "           + 1 :\n", "           :\n"),
 ('ilc', F, "/ (il_count - 1)", "/ il_count"),
 ('swap', F, "il = CoordinateParameters(il_start, il_count, il_increment);", "il = CoordinateParameters(il_start, il_increment, il_count);"),
 ('xl', F, "xl = CoordinateParameters(xl_start, xl_count, xl_increment);", "xl = CoordinateParameters(xl_start, il_count, xl_increment);"),
 ('inc0', F, "    xl_increment = (xl_increment != 0 ? xl_increment : 1LU);\n", ""),
 ('order1', F, "    readTraceNonMonotonic(\n      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);\n\n    return trc;\n}\n\nstd", "    readTraceNonContiguous(\n      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);\n\n    return trc;\n}\n\nstd"),
 ('get', F, "gather[offset + i]", "gather[i]"),
 ('get2', F, "gather[offset[i]]", "gather[offset[0]]"),
 ('start', F, "        auto val   = gather[offset[i]];\n        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count\n                     + ((val.crossline - xl.start) / xl.increment);", "        auto val   = gather[offset[i]];\n        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count\n                     + (val.crossline / xl.increment - xl.start);"),
 ('cntil', F, "         */\n        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count", "         */\n        offsets[i] = ((val.inline_ - il.start) / il.increment) * il.count"),
 ('size', F, "std::vector<exseis::utils::Trace_value> trc(sz * readNs());\n    std::vector<size_t> offsets(sz);\n    for (size_t i = 0; i < sz; i++) {\n        auto val = gather[offset + i];", "std::vector<exseis::utils::Trace_value> trc((offset + sz) * readNs());\n    std::vector<size_t> offsets(sz);\n    for (size_t i = 0; i < sz; i++) {\n        auto val = gather[offset + i];"),
 ('wrap', 'src/ReadModel.cc', "      gOffset, numGather, gather);", "      numGather, gOffset, gather);"),
]
_s = [
 ('helper', F, "std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(\n  const size_t offset,", """static size_t place(
  exseis::utils::Integer v, const Model3dInterface::CoordinateParameters& c)
{
    return (v - c.start) / c.increment;
}

std::vector<exseis::utils::Trace_value> ReadSEGYModel::readModel(
  const size_t offset,"""),
 ('deleg', F, """    std::vector<exseis::utils::Trace_value> trc(sz * readNs());
    std::vector<size_t> offsets(sz);
    for (size_t i = 0; i < sz; i++) {
        auto val = gather[offset + i];
        /* The below can be translated to:
         * trace number = ilNumber * xlInc + xlNumber
         * much like indexing in a 2d array.
         */
        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count
                     + ((val.crossline - xl.start) / xl.increment);
    }

    readTraceNonMonotonic(
      offsets.size(), offsets.data(), trc.data(), PIOL_PARAM_NULL, 0LU);

    return trc;
""", """    std::vector<size_t> places;
    for (size_t i = offset; i < offset + sz; i++) {
        places.push_back(i);
    }
    return readModel(sz, places.data(), gather);
"""),
 ('auto', F, "        auto val   = gather[offset[i]];\n        offsets[i] = ((val.inline_ - il.start) / il.increment) * xl.count\n                     + ((val.crossline - xl.start) / xl.increment);", "        const Gather_info val = gather[offset[i]];\n        const auto row = (val.inline_ - il.start) / il.increment;\n        const auto col = (val.crossline - xl.start) / xl.increment;\n        offsets[i]     = col + row * xl.count;"),
 ('push', F, "    std::vector<size_t> offsets(sz);\n    for (size_t i = 0; i < sz; i++) {\n        auto val = gather[offset + i];", "    std::vector<size_t> offsets;\n    offsets.resize(sz);\n    for (size_t i = 0; i != sz; ++i) {\n        const auto val = gather[i + offset];"),
 ('ctor', F, "    il = CoordinateParameters(il_start, il_count, il_increment);\n    xl = CoordinateParameters(xl_start, xl_count, xl_increment);", "    il.start     = il_start;\n    il.count     = il_count;\n    il.increment = il_increment;\n    xl.start     = xl_start;\n    xl.count     = xl_count;\n    xl.increment = xl_increment;"),
 ('get', F, "    Param prm(vlist.size());\n    readParamNonContiguous(vlist.size(), vlist.data(), &prm);\n", "    const size_t num = vlist.size();\n    Param prm(num);\n    this->readParamNonContiguous(num, &vlist[0], &prm);\n"),
]
CASES = [('p20-' + n, 'P20', 'bug', f, a, b) for n, f, a, b in _b] + [('p20-s-' + n, 'P20', 'same', f, a, b) for n, f, a, b in _s]
