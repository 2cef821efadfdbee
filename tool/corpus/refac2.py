[
# ---- WriteSEGY
('s-put16', 'ALL', 'same', 'src/WriteSEGY.cc',
 """                const auto be_ns = to_big_endian<int16_t>(ns);
                std::copy(
                  std::begin(be_ns), std::end(be_ns),
                  &header_buffer[SEGYFileHeaderByte::NumSample]);

                const auto be_format = to_big_endian<int16_t>(
                  static_cast<int16_t>(SEGYNumberFormat::IEEE));
                std::copy(
                  std::begin(be_format), std::end(be_format),
                  &header_buffer[SEGYFileHeaderByte::Type]);

                const auto be_interval =
                  to_big_endian<int16_t>(std::lround(inc / incFactor));
                std::copy(
                  std::begin(be_interval), std::end(be_interval),
                  &header_buffer[SEGYFileHeaderByte::Interval]);
""",
 """                putShort(header_buffer, SEGYFileHeaderByte::Interval, static_cast<int16_t>(std::lround(inc / incFactor)));
                putShort(header_buffer, SEGYFileHeaderByte::Type, static_cast<int16_t>(SEGYNumberFormat::IEEE));
                putShort(header_buffer, SEGYFileHeaderByte::NumSample, static_cast<int16_t>(ns));
""",
 "WriteSEGY::Opt::Opt(void)\n", """static void putShort(std::vector<unsigned char>& buffer, size_t pos, int16_t value)
{
    const auto bytes = to_big_endian<int16_t>(value);
    for (size_t i = 0; i < bytes.size(); i++) {
        buffer[pos + i] = bytes[i];
    }
}

WriteSEGY::Opt::Opt(void)
"""),
('s-wearly', 'ALL', 'same', 'src/WriteSEGY.cc',
 """    if (!piol->log->isErr()) {
        calcNt();

        if (state.resize) {
            obj->setFileSz(SEGY_utils::getFileSz(nt, ns));
        }

        if (state.writeHO) {""",
 """    if (piol->log->isErr()) {
        return;
    }
    {
        const size_t traces = calcNt();
        const bool header = (state.writeHO != 0);

        if (state.resize) {
            const size_t bytes = SEGY_utils::getFileSz(traces, ns);
            obj->setFileSz(bytes);
        }

        if (header) {"""),
('s-whead', 'ALL', 'same', 'src/WriteSEGY.cc',
 """            if (piol->comm->getRank() == 0) {
                // The buffer to build the header in
                std::vector<unsigned char> header_buffer(SEGY_utils::getHOSz());
""",
 """            std::vector<unsigned char> header_buffer;
            const bool root = (piol->comm->getRank() == 0);
            if (root) {
                // The buffer to build the header in
                header_buffer.resize(SEGY_utils::getHOSz());
""",
 """                // Write the header from the buffer
                obj->writeHO(header_buffer.data());
            }
            else {
                obj->writeHO(NULL);
            }
""", """            }
            obj->writeHO(root ? header_buffer.data() : NULL);
"""),
('s-wtext', 'ALL', 'same', 'src/WriteSEGY.cc',
 """    if (text != text_) {
        text = text_;
        text.resize(SEGY_utils::getTextSz());
        state.writeHO = true;
    }""", """    if (text == text_) {
        return;
    }
    state.writeHO = true;
    text = text_;
    text.resize(SEGY_utils::getTextSz());"""),
('s-wns', 'ALL', 'same', 'src/WriteSEGY.cc',
 """    if (ns != ns_) {
        ns            = ns_;
        state.resize  = true;
        state.writeHO = true;
    }
    nsSet = true;""", """    nsSet = true;
    const bool changed = (ns_ != ns);
    if (changed) {
        state.writeHO = true;
        state.resize  = true;
    }
    ns = ns_;"""),
('s-calcnt', 'ALL', 'same', 'src/WriteSEGY.cc',
 """    if (state.stalent) {
        nt            = piol->comm->max(nt);
        state.stalent = false;
        state.resize  = true;
    }
    return nt;""", """    if (!state.stalent) {
        return nt;
    }
    state.resize  = true;
    state.stalent = false;
    const size_t most = piol->comm->max(nt);
    nt = most;
    return most;"""),
('s-wnested', 'ALL', 'same', 'src/WriteSEGY.cc',
 """        for (size_t i = 0; i < ns * sz; i++) {
            const auto be_trc_i_bytes =
              to_big_endian<exseis::utils::Trace_value>(trc[i]);

            unsigned char* trc_i_bytes =
              reinterpret_cast<unsigned char*>(&trc[i]);

            std::copy(
              std::begin(be_trc_i_bytes), std::end(be_trc_i_bytes),
              trc_i_bytes);
        }""", """        for (size_t t = 0; t < sz; t++) {
            for (size_t s = 0; s < ns; s++) {
                exseis::utils::Trace_value& sample = trc[t * ns + s];
                const auto bytes = to_big_endian<exseis::utils::Trace_value>(sample);
                std::copy(bytes.cbegin(), bytes.cend(), reinterpret_cast<unsigned char*>(&sample));
            }
        }"""),
('s-wptr', 'ALL', 'same', 'src/WriteSEGY.cc',
 """            for (size_t i = 0; i < sz; i++) {
                std::copy(
                  &tbuf[i * SEGY_utils::getDFSz(ns)],
                  &tbuf[(i + 1) * SEGY_utils::getDFSz(ns)],
                  &buf[i * SEGY_utils::getDOSz(ns) + SEGY_utils::getMDSz()]);
            }
""", """            const unsigned char* src = tbuf;
            unsigned char* dst = buf + SEGY_utils::getMDSz();
            for (size_t i = 0; i < sz; i++) {
                std::copy_n(src, SEGY_utils::getDFSz(ns), dst);
                src += SEGY_utils::getDFSz(ns);
                dst += SEGY_utils::getDOSz(ns);
            }
""", "#include <limits>", "#include <algorithm>\n#include <limits>"),
('s-wmemcpy', 'ALL', 'same', 'src/WriteSEGY.cc',
 """                std::copy(
                  &tbuf[i * SEGY_utils::getDFSz(ns)],
                  &tbuf[(i + 1) * SEGY_utils::getDFSz(ns)],
                  &buf[i * SEGY_utils::getDOSz(ns) + SEGY_utils::getMDSz()]);
""", """                unsigned char* block = &buf[i * blockSz];
                memcpy(block + SEGY_utils::getMDSz(), tbuf + i * SEGY_utils::getDFSz(ns), SEGY_utils::getDFSz(ns));
"""),
('s-wstale', 'ALL', 'same', 'src/WriteSEGY.cc',
 """    writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
    state.stalent = true;
    if (sz != 0) {
        nt = std::max(offset + sz, nt);
    }""", """    state.stalent = true;
    if (sz > 0) {
        const size_t end = offset + sz;
        if (end > nt) {
            nt = end;
        }
    }
    writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);""",
 ),
# ---- DataMPIIO
('s-onecall', 'ALL', 'same', 'src/DataMPIIO.cc',
 """    for (size_t i = 0; i < sz; i += max) {
        size_t chunk = std::min(sz - i, max);
        int err      = fn(
          file, MPI_Offset(offset + osz * i), &d[bsz * i], chunk,
          exseis::utils::MPI_type<unsigned char>(), &stat);

        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              msg + exseis::utils::MPI_error_to_string(err, &stat),
              PIOL_VERBOSITY_NONE);
        }
    }

    for (size_t i = 0; i < remCall; i++) {
        int err =
          fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);

        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              msg + exseis::utils::MPI_error_to_string(err, &stat),
              PIOL_VERBOSITY_NONE);
        }
    }""", """    const auto piece = [&](size_t at, unsigned char* p, size_t n) {
        const int err = fn(
          file, static_cast<MPI_Offset>(at), p, static_cast<int>(n),
          exseis::utils::MPI_type<unsigned char>(), &stat);

        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              msg + exseis::utils::MPI_error_to_string(err, &stat),
              PIOL_VERBOSITY_NONE);
        }
    };

    for (size_t i = 0; i < sz; i += max) {
        piece(offset + osz * i, d + bsz * i, std::min(sz - i, max));
    }

    for (; remCall > 0; remCall--) {
        piece(0, NULL, 0);
    }"""),
('s-max', 'ALL', 'same', 'src/DataMPIIO.cc',
 """    auto vec   = piol_->comm->gather<size_t>(sz);

    size_t remCall = *std::max_element(vec.begin(), vec.end());
""", """    size_t remCall = piol_->comm->max(sz);
"""),
('s-max2', 'ALL', 'same', 'src/DataMPIIO.cc',
 """        auto vec = piol_->comm->gather<size_t>(sz);
        remCall  = *std::max_element(vec.begin(), vec.end());
""", """        for (const size_t n : piol_->comm->gather<size_t>(sz)) {
            remCall = std::max(remCall, n);
        }
"""),
('s-fn', 'ALL', 'same', 'src/DataMPIIO.cc',
 """    contigIO(
      (coll ? MPI_File_read_at_all : MPI_File_read_at), offset, sz, d,
      " non-collective read Failure\\n");""",
 """    MFp<MPI_Status> transfer = MPI_File_read_at;
    if (coll) {
        transfer = MPI_File_read_at_all;
    }
    contigIO(transfer, offset, sz, d, " non-collective read Failure\\n");"""),
('s-bl', 'ALL', 'same', 'src/DataMPIIO.cc',
 """    if (err != MPI_SUCCESS) {
        return err;
    }

    err = MPI_Type_commit(type);
    if (err != MPI_SUCCESS) {
        return err;
    }

    return MPI_File_set_view(file, 0, MPI_BYTE, *type, "native", info);
}

/*! @brief This function exists to hide the const from the MPI_File_write_at
""", """    if (err == MPI_SUCCESS) {
        err = MPI_Type_commit(type);
    }
    if (err == MPI_SUCCESS) {
        err = MPI_File_set_view(file, 0, MPI_BYTE, *type, "native", info);
    }
    return err;
}

/*! @brief This function exists to hide the const from the MPI_File_write_at
"""),
('s-unify', 'ALL', 'same', 'src/DataMPIIO.cc',
 """    remCall = (remCall / max + static_cast<size_t>(remCall % max > 0))
              - (sz / max + static_cast<size_t>(sz % max > 0));

    for (size_t i = 0; i < sz; i += max) {
        size_t chunk = std::min(sz - i, max);
        int err      = fn(
          file, MPI_Offset(offset + osz * i), &d[bsz * i], chunk,
          exseis::utils::MPI_type<unsigned char>(), &stat);

        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              msg + exseis::utils::MPI_error_to_string(err, &stat),
              PIOL_VERBOSITY_NONE);
        }
    }

    for (size_t i = 0; i < remCall; i++) {
        int err =
          fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);
""", """    const size_t calls = remCall / max + static_cast<size_t>(remCall % max > 0);

    for (size_t c = 0; c < calls; c++) {
        const size_t i = c * max;
        int err;
        if (i < sz) {
            const size_t chunk = std::min(sz - i, max);
            err = fn(
              file, MPI_Offset(offset + osz * i), &d[bsz * i], chunk,
              exseis::utils::MPI_type<unsigned char>(), &stat);
        }
        else {
            err = fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);
        }
"""),
('s-dtor', 'ALL', 'same', 'src/DataMPIIO.cc',
 """    if (info != MPI_INFO_NULL) {
        int err = MPI_Info_free(&info);

        if (err != MPI_SUCCESS) {
            log_->record(
              name_, Logger::Layer::Data, Logger::Status::Error,
              "MPI_Info_free error: "s
                + exseis::utils::MPI_error_to_string(err),
              PIOL_VERBOSITY_NONE);
        }
    }
}
""", """    if (info == MPI_INFO_NULL) {
        return;
    }
    const int err = MPI_Info_free(&info);
    if (err == MPI_SUCCESS) {
        return;
    }
    log_->record(
      name_, Logger::Layer::Data, Logger::Status::Error,
      "MPI_Info_free error: "s + exseis::utils::MPI_error_to_string(err),
      PIOL_VERBOSITY_NONE);
}
"""),
# ---- ReadSEGY
('s-rread', 'ALL', 'same', 'src/ReadSEGY.cc',
 """    size_t ntz = ((sz == 0) ? sz : (offset + sz > nt ? nt - offset : sz));
""", """    size_t ntz = sz;
    if (sz != 0 && offset + sz > nt) {
        ntz = nt - offset;
    }
"""),
('s-rconv', 'ALL', 'same', 'src/ReadSEGY.cc',
 """            for (size_t i = 0; i < ns * sz; i++) {
                trc[i] = from_big_endian<exseis::utils::Trace_value>(
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 0],
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 1],
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 2],
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 3]);
            }""", """            const unsigned char* b = tbuf;
            for (size_t i = 0; i < ns * sz; i++, b += 4) {
                trc[i] = from_big_endian<exseis::utils::Trace_value>(b[0], b[1], b[2], b[3]);
            }"""),
('s-ribm', 'ALL', 'same', 'src/ReadSEGY.cc',
 """        if (number_format == SEGYNumberFormat::IBM) {
            for (size_t i = 0; i < ns * sz; i++) {
                const exseis::utils::Trace_value be_trc_i = trc[i];

                const unsigned char* be_trc_i_bytes =
                  reinterpret_cast<const unsigned char*>(&be_trc_i);

                std::array<unsigned char, 4> be_bytes_array = {
                  {be_trc_i_bytes[0], be_trc_i_bytes[1], be_trc_i_bytes[2],
                   be_trc_i_bytes[3]}};

                trc[i] = from_IBM_to_float(be_bytes_array, true);
            }
        }
        else {
            for (size_t i = 0; i < ns * sz; i++) {
                trc[i] = from_big_endian<exseis::utils::Trace_value>(
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 0],
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 1],
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 2],
                  tbuf[i * sizeof(exseis::utils::Trace_value) + 3]);
            }
        }
""", """        const bool ibm = (number_format == SEGYNumberFormat::IBM);
        for (size_t i = 0; i < ns * sz; i++) {
            const std::array<unsigned char, 4> raw = {{tbuf[4 * i], tbuf[4 * i + 1], tbuf[4 * i + 2], tbuf[4 * i + 3]}};
            trc[i] = ibm ? from_IBM_to_float(raw, true) :
                           from_big_endian<exseis::utils::Trace_value>(raw[0], raw[1], raw[2], raw[3]);
        }
"""),
('s-rhead', 'ALL', 'same', 'src/ReadSEGY.cc',
 """    if (fsz >= hoSz) {

        // Read the header into header_buffer
        auto header_buffer = std::vector<unsigned char>(hoSz);
        obj->readHO(header_buffer.data());
""", """    if (hoSz <= fsz) {

        // Read the header into header_buffer
        std::vector<unsigned char> header_buffer;
        header_buffer.resize(hoSz);
        obj->readHO(&header_buffer[0]);
""",
 """        ns = from_big_endian<int16_t>(
          header_buffer[SEGYFileHeaderByte::NumSample + 0],
          header_buffer[SEGYFileHeaderByte::NumSample + 1]);
""", """        const auto shortAt = [&header_buffer](size_t pos) {
            return from_big_endian<int16_t>(header_buffer[pos], header_buffer[pos + 1]);
        };
        ns = shortAt(SEGYFileHeaderByte::NumSample);
"""),
('s-rltn', 'ALL', 'same', 'src/ReadSEGY.cc',
 """        for (size_t i = 0; i < sz; i++) {
            param_utils::setPrm(i + skip, PIOL_META_ltn, offunc(i), prm);
        }""", """        for (size_t i = skip; i < skip + sz; i++) {
            param_utils::setPrm(i, PIOL_META_ltn, offunc(i - skip), prm);
        }"""),
('s-rblk', 'ALL', 'same', 'src/ReadSEGY.cc',
 """                std::copy(
                  &buf[i * SEGY_utils::getDOSz(ns) + SEGY_utils::getMDSz()],
                  &buf[(i + 1) * SEGY_utils::getDOSz(ns)],
                  &tbuf[i * SEGY_utils::getDFSz(ns)]);
""", """                const unsigned char* first = buf + i * blockSz + SEGY_utils::getMDSz();
                const unsigned char* last  = first + SEGY_utils::getDFSz(ns);
                std::copy(first, last, tbuf + i * SEGY_utils::getDFSz(ns));
"""),
# ---- ObjectSEGY
('s-objnull', 'ALL', 'same', 'src/ObjectSEGY.cc',
 """    if (ns == 0) {
        return;
    }

    std::vector<size_t> dooff(sz);

    for (size_t i = 0; i < sz; i++) {
        dooff[i] = SEGY_utils::getDODFLoc(offset[i], ns);
    }

    data_->read(SEGY_utils::getDFSz(ns), sz, dooff.data(), df);""",
 """    if (ns > 0) {
        std::vector<size_t> dooff(offset, offset + sz);
        for (auto& o : dooff) {
            o = SEGY_utils::getDODFLoc(o, ns);
        }
        data_->read(SEGY_utils::getDFSz(ns), dooff.size(), dooff.data(), df);
    }"""),
('s-objcopy', 'ALL', 'same', 'src/ObjectSEGY.cc',
 """    std::vector<size_t> dooff(sz);

    for (size_t i = 0; i < sz; i++) {
        dooff[i] = SEGY_utils::getDOLoc(offset[i], ns);
    }

    data_->write(SEGY_utils::getMDSz(), sz, dooff.data(), md);""",
 """    std::vector<size_t> dooff;
    for (const size_t* o = offset; o != offset + sz; ++o) {
        dooff.push_back(SEGY_utils::getDOLoc(*o, ns));
    }
    const size_t block = SEGY_utils::getMDSz();
    data_->write(block, sz, dooff.data(), md);"""),
]
