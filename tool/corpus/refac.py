[
('r-ceil', 'ALL', 'same', 'src/DataMPIIO.cc', '    remCall = (remCall / max + static_cast<size_t>(remCall % max > 0))\n              - (sz / max + static_cast<size_t>(sz % max > 0));', '    const auto pieces = [max](size_t n) { return n / max + (n % max != 0 ? 1LU : 0LU); };\n    remCall = pieces(remCall) - pieces(sz);'),
('r-ceil2', 'ALL', 'same', 'src/DataMPIIO.cc', '        remCall = remCall / max + static_cast<size_t>(remCall % max > 0)\n                  - ((sz / max) + static_cast<size_t>(sz % max > 0));', '        remCall = numPieces(remCall, max) - numPieces(sz, max);', 'void DataMPIIO::read(size_t offset, size_t sz, unsigned char* d) const\n{', 'static size_t numPieces(size_t n, size_t max);\nvoid DataMPIIO::read(size_t offset, size_t sz, unsigned char* d) const\n{', '// Perform I/O to acquire data', 'static size_t numPieces(size_t n, size_t max)\n{\n    size_t pieces = n / max;\n    if (n % max > 0) {\n        pieces++;\n    }\n    return pieces;\n}\n\n// Perform I/O to acquire data'),
('r-while', 'ALL', 'same', 'src/DataMPIIO.cc', '    for (size_t i = 0; i < sz; i += max) {\n        size_t chunk = std::min(sz - i, max);\n        int err      = fn(', '    for (size_t i = 0; i < sz; i += max) {\n        const size_t left = sz - i;\n        size_t chunk = left;\n        if (chunk > max) {\n            chunk = max;\n        }\n        int err      = fn('),
('r-while2', 'ALL', 'same', 'src/DataMPIIO.cc', '    for (size_t i = 0; i < sz; i += max) {\n\n        size_t chunk = std::min(sz - i, max);\n\n        int err = iol(', '    size_t i = 0;\n    while (i < sz) {\n\n        const size_t chunk = std::min(max, sz - i);\n        const size_t at = i;\n        i += max;\n\n        int err = iol(', 'reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);', 'reinterpret_cast<const MPI_Aint*>(offset + at), d + at * bsz, &stat);'),
('r-remif', 'ALL', 'same', 'src/DataMPIIO.cc', '    if (remCall != 0) {\n        for (size_t i = 0; i < remCall; i++) {\n            int err = iol(fn, file, info, 0, 0, nullptr, nullptr, &stat);\n\n            if (err != MPI_SUCCESS) {\n                log_->record(\n                  name_, Logger::Layer::Data, Logger::Status::Error,\n                  msg + exseis::utils::MPI_error_to_string(err, &stat),\n                  PIOL_VERBOSITY_NONE);\n            }\n        }\n    }', '    for (size_t left = remCall; left > 0; left--) {\n        const int err = iol(fn, file, info, 0, 0, nullptr, nullptr, &stat);\n\n        if (err == MPI_SUCCESS) {\n            continue;\n        }\n        log_->record(\n          name_, Logger::Layer::Data, Logger::Status::Error,\n          msg + exseis::utils::MPI_error_to_string(err, &stat),\n          PIOL_VERBOSITY_NONE);\n    }'),
('r-resetview', 'ALL', 'same', 'src/DataMPIIO.cc', '    // Reset the view, even if the transfer failed.\n    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);\n    if (err == MPI_SUCCESS) {\n        err = MPI_Type_free(&type);\n    }\n\n    return (io_err != MPI_SUCCESS ? io_err : err);', '    // Reset the view, even if the transfer failed.\n    err = resetView(file, info, &type);\n    if (io_err != MPI_SUCCESS) {\n        return io_err;\n    }\n    return err;', '/*! Perform list-based I/O by setting', 'static int resetView(MPI_File file, MPI_Info info, MPI_Datatype* type)\n{\n    const int err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);\n    if (err != MPI_SUCCESS) {\n        return err;\n    }\n    return MPI_Type_free(type);\n}\n\n/*! Perform list-based I/O by setting'),
('r-openerr', 'ALL', 'same', 'src/DataMPIIO.cc', '    err = MPI_File_open(fcomm, name_.data(), flags, info, &file);\n    if (err != MPI_SUCCESS) {\n        log_->record(\n          name_, Logger::Layer::Data, Logger::Status::Error,\n          "MPI_File_open error: "s + exseis::utils::MPI_error_to_string(err),\n          PIOL_VERBOSITY_NONE);\n    }\n\n    if (err == MPI_SUCCESS) {\n        int err =\n          MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);\n\n        if (err != MPI_SUCCESS) {\n            log_->record(\n              name_, Logger::Layer::Data, Logger::Status::Error,\n              "DataMPIIO Constructor failed to set a view error: "s\n                + exseis::utils::MPI_error_to_string(err),\n              PIOL_VERBOSITY_NONE);\n        }\n    }', '    const auto check = [this](const char* what, int code) {\n        if (code != MPI_SUCCESS) {\n            log_->record(\n              name_, Logger::Layer::Data, Logger::Status::Error,\n              what + exseis::utils::MPI_error_to_string(code),\n              PIOL_VERBOSITY_NONE);\n        }\n        return code == MPI_SUCCESS;\n    };\n\n    err = MPI_File_open(fcomm, name_.c_str(), flags, info, &file);\n    if (!check("MPI_File_open error: ", err)) {\n        return;\n    }\n    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);\n    check("DataMPIIO Constructor failed to set a view error: ", err);'),
('r-mode', 'ALL', 'same', 'src/DataMPIIO.cc', '    switch (mode) {\n        default:\n        case FileMode::Read:\n            return MPI_MODE_RDONLY | MPI_MODE_UNIQUE_OPEN;\n\n        case FileMode::Write:\n            return MPI_MODE_CREATE | MPI_MODE_WRONLY | MPI_MODE_UNIQUE_OPEN;\n\n        case FileMode::ReadWrite:\n            return MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN;\n\n        case FileMode::Test:\n            return MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_DELETE_ON_CLOSE;\n    }', '    int flags = MPI_MODE_RDONLY | MPI_MODE_UNIQUE_OPEN;\n    if (mode == FileMode::Write) {\n        flags = MPI_MODE_CREATE | MPI_MODE_WRONLY | MPI_MODE_UNIQUE_OPEN;\n    }\n    else if (mode == FileMode::ReadWrite) {\n        flags = MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN;\n    }\n    else if (mode == FileMode::Test) {\n        flags = MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_DELETE_ON_CLOSE;\n    }\n    return flags;'),
('r-viewio', 'ALL', 'same', 'src/DataMPIIO.cc', '        readv(off, bsz, osz, size_t(numb), static_cast<unsigned char*>(d));\n\n        return MPI_SUCCESS;\n    };', '        auto* bytes = static_cast<unsigned char*>(d);\n        const auto blocks = static_cast<size_t>(numb);\n        readv(off, bsz, osz, blocks, bytes);\n        return MPI_SUCCESS;\n    };'),
('r-blk', 'ALL', 'same', 'src/DataMPIIO.cc', '    std::vector<int> bl(count);\n    for (int i = 0; i < count; i++) {\n        bl[i] = block;\n    }\n', '    const std::vector<int> bl(count, block);\n'),
('r-obj', 'ALL', 'same', 'src/ObjectSEGY.cc', '    std::vector<size_t> dooff(sz);\n\n    for (size_t i = 0; i < sz; i++) {\n        dooff[i] = SEGY_utils::getDOLoc(offset[i], ns);\n    }\n\n    data_->read(SEGY_utils::getDOSz(ns), sz, dooff.data(), d);', '    const std::vector<size_t> dooff = byteOffsets(offset, ns, sz);\n    data_->read(SEGY_utils::getDOSz(ns), sz, dooff.data(), d);', '//////////////////////////       Member functions      /////////////////////////\n', 'static std::vector<size_t> byteOffsets(const size_t* offset, const size_t ns, const size_t sz)\n{\n    std::vector<size_t> dooff;\n    dooff.reserve(sz);\n    for (size_t i = 0; i < sz; i++) {\n        dooff.push_back(SEGY_utils::getDOLoc(offset[i], ns));\n    }\n    return dooff;\n}\n'),
('r-obj2', 'ALL', 'same', 'src/ObjectSEGY.cc', '    if (ns == 0) {\n        return;\n    }\n\n    std::vector<size_t> dooff(sz);\n\n    for (size_t i = 0; i < sz; i++) {\n        dooff[i] = SEGY_utils::getDODFLoc(offset[i], ns);\n    }\n\n    data_->read(SEGY_utils::getDFSz(ns), sz, dooff.data(), df);', '    if (ns != 0) {\n        std::vector<size_t> dooff(sz);\n        std::transform(offset, offset + sz, dooff.begin(), [ns](size_t o) { return SEGY_utils::getDODFLoc(o, ns); });\n\n        data_->read(SEGY_utils::getDFSz(ns), sz, dooff.data(), df);\n    }', '#include "ExSeisDat/PIOL/DataInterface.hh"', '#include <algorithm>\n#include "ExSeisDat/PIOL/DataInterface.hh"'),
('r-ho', 'ALL', 'same', 'src/ObjectSEGY.cc', '    if (ho != nullptr) {\n        data_->write(0LU, SEGY_utils::getHOSz(), ho);\n    }\n    else {\n        data_->write(0LU, 0U, ho);\n    }', '    const size_t bytes = (ho == nullptr ? 0LU : SEGY_utils::getHOSz());\n    data_->write(0LU, bytes, ho);'),
('r-read', 'ALL', 'same', 'src/ReadSEGY.cc', '    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));\n    if (offset >= nt && sz != 0) {', '    size_t ntz = sz;\n    if (sz != 0 && offset + sz > nt) {\n        ntz = nt - offset;\n    }\n    if (sz != 0 && offset >= nt) {'),
('r-read2', 'ALL', 'same', 'src/ReadSEGY.cc', '            for (size_t i = 0; i < sz; i++) {\n                std::copy(\n                  &buf[i * SEGY_utils::getDOSz(ns) + SEGY_utils::getMDSz()],\n                  &buf[(i + 1) * SEGY_utils::getDOSz(ns)],\n                  &tbuf[i * SEGY_utils::getDFSz(ns)]);\n            }', '            const size_t df = SEGY_utils::getDFSz(ns);\n            const unsigned char* from = buf;\n            unsigned char* to = tbuf;\n            for (size_t i = 0; i < sz; i++) {\n                std::copy_n(from + SEGY_utils::getMDSz(), df, to);\n                from += SEGY_utils::getDOSz(ns);\n                to += df;\n            }'),
('r-hdr', 'ALL', 'same', 'src/ReadSEGY.cc', '        ns = from_big_endian<int16_t>(\n          header_buffer[SEGYFileHeaderByte::NumSample + 0],\n          header_buffer[SEGYFileHeaderByte::NumSample + 1]);\n\n        nt = SEGY_utils::getNt(fsz, ns);\n\n        inc = incFactor\n              * exseis::utils::Floating_point(from_big_endian<int16_t>(\n                  header_buffer[SEGYFileHeaderByte::Interval + 0],\n                  header_buffer[SEGYFileHeaderByte::Interval + 1]));\n\n        number_format = static_cast<SEGYNumberFormat>(from_big_endian<int16_t>(\n          header_buffer[SEGYFileHeaderByte::Type + 0],\n          header_buffer[SEGYFileHeaderByte::Type + 1]));\n', '        const auto entry = [&header_buffer](size_t at) {\n            return from_big_endian<int16_t>(header_buffer[at], header_buffer[at + 1]);\n        };\n        number_format = static_cast<SEGYNumberFormat>(entry(SEGYFileHeaderByte::Type));\n        inc = incFactor * exseis::utils::Floating_point(entry(SEGYFileHeaderByte::Interval));\n        ns = entry(SEGYFileHeaderByte::NumSample);\n        nt = SEGY_utils::getNt(fsz, ns);\n'),
('r-ibm', 'ALL', 'same', 'src/ReadSEGY.cc', '                const unsigned char* be_trc_i_bytes =\n                  reinterpret_cast<const unsigned char*>(&be_trc_i);\n\n                std::array<unsigned char, 4> be_bytes_array = {\n                  {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],\n                   be_trc_i_bytes[3]}};\n\n                trc[i] = from_IBM_to_float(be_bytes_array, true);', '                std::array<unsigned char, 4> be_bytes_array;\n                std::memcpy(be_bytes_array.data(), &be_trc_i, sizeof(be_trc_i));\n                trc[i] = from_IBM_to_float(be_bytes_array, true);'),
('r-wdtor', 'ALL', 'same', 'src/WriteSEGY.cc', '    // TODO: On error this can be a source of a deadlock\n    if (!piol->log->isErr()) {\n        calcNt();\n', '    // TODO: On error this can be a source of a deadlock\n    if (piol->log->isErr()) {\n        return;\n    }\n    {\n        calcNt();\n'),
('r-wentry', 'ALL', 'same', 'src/WriteSEGY.cc', '                const auto be_ns = to_big_endian<int16_t>(ns);\n                std::copy(\n                  std::begin(be_ns), std::end(be_ns),\n                  &header_buffer[SEGYFileHeaderByte::NumSample]);\n\n                const auto be_format = to_big_endian<int16_t>(\n                  static_cast<int16_t>(SEGYNumberFormat::IEEE));\n                std::copy(\n                  std::begin(be_format), std::end(be_format),\n                  &header_buffer[SEGYFileHeaderByte::Type]);\n', '                const auto put = [&header_buffer](int16_t value, size_t at) {\n                    const auto be = to_big_endian<int16_t>(value);\n                    std::copy(std::begin(be), std::end(be), header_buffer.begin() + at);\n                };\n                put(static_cast<int16_t>(SEGYNumberFormat::IEEE), SEGYFileHeaderByte::Type);\n                put(static_cast<int16_t>(ns), SEGYFileHeaderByte::NumSample);\n'),
('r-wback', 'ALL', 'same', 'src/WriteSEGY.cc', '    if (trc != TRACE_NULL && trc != nullptr) {\n        for (size_t i = 0; i < ns * sz; i++) {\n            const auto be_trc_i_bytes =\n              to_big_endian<exseis::utils::Trace_value>(trc[i]);\n\n            unsigned char* trc_i_bytes =\n              reinterpret_cast<unsigned char*>(&trc[i]);\n\n            std::copy(\n              std::begin(be_trc_i_bytes), std::end(be_trc_i_bytes),\n              trc_i_bytes);\n        }\n    }\n', '    const bool hasTrace = (trc != TRACE_NULL && trc != nullptr);\n    if (hasTrace) {\n        toFileOrder(trc, ns * sz);\n    }\n', '/*! Template function for writing SEG-Y traces and parameters, random and\n', 'static void toFileOrder(exseis::utils::Trace_value* trc, size_t n)\n{\n    for (exseis::utils::Trace_value* t = trc; t != trc + n; ++t) {\n        const auto be = to_big_endian<exseis::utils::Trace_value>(*t);\n        std::copy(be.begin(), be.end(), reinterpret_cast<unsigned char*>(t));\n    }\n}\n\n/*! Template function for writing SEG-Y traces and parameters, random and\n'),
('r-wmax', 'ALL', 'same', 'src/WriteSEGY.cc', '    if (sz != 0) {\n        nt = std::max(offset[sz - 1LU] + 1LU, nt);\n    }', '    if (sz == 0) {\n        return;\n    }\n    const size_t end = offset[sz - 1LU] + 1LU;\n    if (end > nt) {\n        nt = end;\n    }'),
('r-comm', 'ALL', 'same', 'src/CommunicatorMPI.cc', '    return (rank == 0 ? 0LU : offset);', '    if (rank == 0) {\n        return 0LU;\n    }\n    return offset;'),
('r-gather', 'ALL', 'same', 'src/gather.cc', '    size_t start = 0;\n    if (\n      rank != 0 && ilb[rank - 1LU] == ilf[rank]\n      && xlb[rank - 1LU] == xlf[rank]) {\n\n        start = 1;\n    }\n', '    const bool continues = (rank != 0 && ilb[rank - 1LU] == ilf[rank] && xlb[rank - 1LU] == xlf[rank]);\n    const size_t start = (continues ? 1 : 0);\n'),
('r-gather2', 'ALL', 'same', 'src/gather.cc', '            for (size_t i = rank + 1LU; i < numRank; i++) {\n                if (ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {\n                    lline.back().num_traces += trcnum[i];\n                }\n                else {\n                    break;\n                }\n            }', '            size_t i = rank + 1LU;\n            while (i < numRank && ilb[rank] == ilf[i] && xlb[rank] == xlf[i]) {\n                lline.back().num_traces += trcnum[i];\n                i++;\n            }'),
('r-tofloat', 'ALL', 'same', 'src/utils/encoding/number_encoding.cc', '    const uint32_t int_float = sign | exp | frac;\n\n    float rval = 0;\n    std::memcpy(&rval, &int_float, sizeof(float));\n\n    return rval;', '    return bitsToFloat(sign | static_cast<uint32_t>(exp) | frac);', 'float to_float(Float_components components)\n{', 'static float bitsToFloat(uint32_t bits)\n{\n    float value;\n    std::memcpy(&value, &bits, sizeof(value));\n    return value;\n}\n\nfloat to_float(Float_components components)\n{'),
('r-wait', 'ALL', 'same', 'src/sort.cc', '        for (size_t i = 0; i < req1.size(); i++) {\n            err = MPI_Wait(&req1[i], &stat);\n', '        for (auto& request : req1) {\n            err = MPI_Wait(&request, &stat);\n'),
('r-sendr', 'ALL', 'same', 'src/sort.cc', '    size_t rank = piol->comm->getRank();\n    size_t cnt  = regionSz * sizeof(T);\n\n    std::vector<MPI_Request> rsnd(1);\n    std::vector<MPI_Request> rrcv(1);\n\n    // TODO: Move to the communication layer?\n    if (rank) {\n        int err = MPI_Irecv(\n          dat.data(), cnt,', '    const size_t rank = piol->comm->getRank();\n    const size_t cnt  = sizeof(T) * regionSz;\n    const bool first = (rank == 0);\n\n    std::vector<MPI_Request> rrcv(1);\n    std::vector<MPI_Request> rsnd(1);\n\n    if (!first) {\n        int err = MPI_Irecv(\n          dat.data(), cnt,'),
('r-order', 'ALL', 'same', 'src/sort.cc', '    for (size_t i = 1; i < dec.local_size; i++) {\n        if (!comp(&prm, i - 1, i)) {\n            return false;\n        }\n    }\n\n    return true;', '    bool ordered = true;\n    for (size_t i = 0; ordered && i + 1 < dec.local_size; i++) {\n        ordered = comp(&prm, i, i + 1);\n    }\n\n    return ordered;'),
('r-dec', 'ALL', 'same', 'src/utils/decomposition/block_decomposition.cc', '    const size_t chunk_size = range_size / num_ranks;\n    const size_t remainder  = range_size % num_ranks;\n\n    // We want', '    const size_t chunk_size = range_size / num_ranks;\n    const size_t remainder  = range_size - chunk_size * num_ranks;\n\n    // We want'),
('r-log', 'ALL', 'same', 'src/Logger.cc', '    size_t sz = 0;\n    for (auto& item : loglist_) {\n        // The spec guarantees this is one if the equality holds\n        if (item.stat == stat) {\n            sz++;\n        }\n    }\n\n    return sz;', '    return std::count_if(loglist_.begin(), loglist_.end(), [stat](const Item& item) { return item.stat == stat; });', '#include "ExSeisDat/PIOL/Logger.hh"', '#include <algorithm>\n#include "ExSeisDat/PIOL/Logger.hh"'),
('r-log2', 'ALL', 'same', 'src/Logger.cc', '    if (condition) {\n        record(file, layer, stat, msg, verbosity);\n    }', '    if (!condition) {\n        return;\n    }\n    record(file, layer, stat, msg, verbosity);'),
]
