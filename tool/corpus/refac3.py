[
('t-rank', 'ALL', 'same', 'src/CommunicatorMPI.cc',
 """    int irank;
    int inumRank;
    MPI_Comm_rank(comm, &irank);
    MPI_Comm_size(comm, &inumRank);
    rank    = irank;
    numRank = inumRank;""",
 """    int n = 0;
    MPI_Comm_size(comm, &n);
    numRank = static_cast<size_t>(n);

    int r = 0;
    MPI_Comm_rank(comm, &r);
    rank = static_cast<size_t>(r);"""),
('t-op', 'ALL', 'same', 'src/CommunicatorMPI.cc',
 """    return (err == MPI_SUCCESS ? result : 0LU);
}

size_t CommunicatorMPI::sum""", """    if (err != MPI_SUCCESS) {
        result = 0;
    }
    return result;
}

size_t CommunicatorMPI::sum"""),
('t-op2', 'ALL', 'same', 'src/CommunicatorMPI.cc',
 """    if (err != MPI_SUCCESS) {
        log->record(
          "", Logger::Layer::Comm, Logger::Status::Error,
          "MPI_Allreduce error: "s + exseis::utils::MPI_error_to_string(err),
          PIOL_VERBOSITY_NONE);
    }

    return (err == MPI_SUCCESS ? result : 0LU);""", """    if (err == MPI_SUCCESS) {
        return result;
    }

    const std::string reason = exseis::utils::MPI_error_to_string(err);
    log->record(
      "", Logger::Layer::Comm, Logger::Status::Error,
      "MPI_Allreduce error: "s + reason, PIOL_VERBOSITY_NONE);
    return 0LU;"""),
('t-gat', 'ALL', 'same', 'src/CommunicatorMPI.cc',
 """    std::vector<T> arr(mpi->getNumRank() * in.size());
    int err = MPI_Allgather(
      in.data(), in.size(), exseis::utils::MPI_type<T>(), arr.data(), in.size(),
      exseis::utils::MPI_type<T>(), mpi->getComm());
""", """    const auto type  = exseis::utils::MPI_type<T>();
    const size_t own = in.size();
    std::vector<T> arr;
    arr.resize(own * mpi->getNumRank());
    const int err = MPI_Allgather(&in[0], own, type, &arr[0], own, type, mpi->getComm());
"""),
('t-exscan', 'ALL', 'same', 'src/CommunicatorMPI.cc',
 """    return (rank == 0 ? 0LU : offset);""", """    if (rank != 0) {
        return offset;
    }
    return 0LU;"""),
('t-logrec', 'ALL', 'same', 'src/Logger.cc',
 """    if (verbosity <= maxLevel) {
        loglist_.push_front({file, layer, stat, msg, verbosity});
    }

    if (stat == Logger::Status::Error) {
        error = true;
    }""", """    error = error || (stat == Logger::Status::Error);

    if (verbosity > maxLevel) {
        return;
    }
    const Item item = {file, layer, stat, msg, verbosity};
    loglist_.push_front(item);"""),
('t-logproc', 'ALL', 'same', 'src/Logger.cc',
 """    for (auto& item : loglist_) {
        std::cerr << item.file << " " << static_cast<size_t>(item.layer) << " "
                  << static_cast<size_t>(item.stat) << " " << item.msg << " "
                  << static_cast<size_t>(item.vrbsy) << std::endl;
    }

    loglist_.clear();""", """    for (auto it = loglist_.begin(); it != loglist_.end(); ++it) {
        std::cerr << it->file << " ";
        std::cerr << static_cast<size_t>(it->layer) << " " << static_cast<size_t>(it->stat) << " ";
        std::cerr << it->msg << " " << static_cast<size_t>(it->vrbsy) << std::endl;
    }

    loglist_.clear();"""),
('t-logif', 'ALL', 'same', 'src/Logger.cc',
 """    if (condition) {
        record(file, layer, stat, msg, verbosity);
    }""", """    if (!condition) {
        return;
    }
    record(file, layer, stat, msg, verbosity);"""),
('t-dec1', 'ALL', 'same', 'src/utils/decomposition/block_decomposition.cc',
 """    const size_t global_offset = chunk_size * rank + std::min(rank, remainder);
""", """    size_t global_offset = (chunk_size + 1) * rank;
    if (rank >= remainder) {
        global_offset = (chunk_size + 1) * remainder + chunk_size * (rank - remainder);
    }
"""),
('t-dec2', 'ALL', 'same', 'src/utils/decomposition/block_decomposition.cc',
 """        const size_t local_index = global_index - chunk_size * rank - remainder;
""", """        const size_t local_index = offset_global_index % chunk_size;
"""),
('t-dec3', 'ALL', 'same', 'src/utils/decomposition/block_decomposition.cc',
 """        const size_t local_index = global_index - (chunk_size + 1) * rank;
""", """        const size_t local_index = global_index % (chunk_size + 1);
"""),
('t-decc', 'ALL', 'same', 'src/utils/decomposition/block_decomposition.cc',
 """    return {global_offset, local_size};""", """    Contiguous_decomposition result(0, 0);
    result.local_size    = local_size;
    result.global_offset = global_offset;
    return result;"""),
('t-dvset', 'ALL', 'same', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh',
 """    if (i >= global_size) {
        return;
    }
""", """    if (!(i < global_size)) {
        return;
    }
    const size_t bytes = sizeof(T);
""",
 """        const size_t T_size = sizeof(T);
        MPI_Put(
          &val, T_size, MPI_BYTE, location.rank, location.local_index, T_size,
          MPI_BYTE, win);
""", """        MPI_Put(
          &val, bytes, MPI_BYTE, location.rank, location.local_index, bytes,
          MPI_BYTE, win);
"""),
('t-dvget', 'ALL', 'same', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh',
 """    if (location.rank == static_cast<size_t>(rank)) {
        return data[location.local_index];
    }
    else {
        T val;
""", """    T val;
    const bool local = (static_cast<size_t>(rank) == location.rank);
    if (local) {
        val = data[location.local_index];
    }
    else {
""",
 """        MPI_Win_unlock(location.rank, win);

        return val;
    }
""", """        MPI_Win_unlock(location.rank, win);
    }
    return val;
"""),
('t-dvctor', 'ALL', 'same', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh',
 """    const size_t local_size = decomposition.local_size;

""", """    const MPI_Aint bytes = decomposition.local_size * sizeof(T);

""", """      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL, comm, &data, &win);""", """      bytes, sizeof(T), MPI_INFO_NULL, comm, &data, &win);"""),
('t-ggath', 'ALL', 'same', 'src/gather.cc',
 """    auto trcnum = piol->comm->gather<size_t>(lline.front().num_traces);
    auto ilb    = piol->comm->gather<size_t>(lline.back().inline_);
    auto xlb    = piol->comm->gather<size_t>(lline.back().crossline);
    auto ilf    = piol->comm->gather<size_t>(lline.front().inline_);
    auto xlf    = piol->comm->gather<size_t>(lline.front().crossline);
""", """    const Gather_info& first = lline.front();
    const Gather_info& last  = lline.back();
    auto ilf    = piol->comm->gather<size_t>(first.inline_);
    auto xlf    = piol->comm->gather<size_t>(first.crossline);
    auto ilb    = piol->comm->gather<size_t>(last.inline_);
    auto xlb    = piol->comm->gather<size_t>(last.crossline);
    auto trcnum = piol->comm->gather<size_t>(first.num_traces);
"""),
('t-enc', 'ALL', 'same', 'include/ExSeisDat/utils/encoding/number_encoding.hh',
 """    return (T(src[0]) << 8) | T(src[1] << 0);""", """    T value = 0;
    for (size_t i = 0; i < 2; i++) {
        value = static_cast<T>((value << 8) | src[i]);
    }
    return value;"""),
('t-enc4', 'ALL', 'same', 'include/ExSeisDat/utils/encoding/number_encoding.hh',
 """    return (T(src[0]) << 24) | (T(src[1]) << 16) | (T(src[2]) << 8)
           | T(src[3] << 0);""", """    const uint32_t value = (uint32_t(src[0]) << 24) + (uint32_t(src[1]) << 16)
                           + (uint32_t(src[2]) << 8) + uint32_t(src[3]);
    return static_cast<T>(value);"""),
('t-tobig', 'ALL', 'same', 'include/ExSeisDat/utils/encoding/number_encoding.hh',
 """    for (size_t i = 0; i < t_size; i++) {
        // Find the bitwise right shift necessary to move byte i to byte 1.
        const size_t byte_shift = t_size - i - 1;
        const size_t bit_shift  = byte_shift * 8;

        // Read byte 1 into dst.
        dst[i] = (src >> bit_shift) & 0xFF;
    }""", """    for (size_t i = t_size; i > 0; i--) {
        dst[i - 1] = static_cast<unsigned char>(src & 0xFF);
        src        = static_cast<T>(src >> 8);
    }"""),
('t-ibmexp', 'ALL', 'same', 'src/utils/encoding/number_encoding.cc',
 """    const uint32_t offsets[]         = {3, 2, 1, 1, 0, 0, 0, 0};
""", """    static const uint32_t offsets[8] = {3u, 2u, 1u, 1u, 0u, 0u, 0u, 0u};
"""),
('t-round', 'ALL', 'same', 'src/utils/encoding/number_encoding.cc',
 """    if (trunc > half) {
        truncated_value += 1;
    }
    else if (trunc == half) {
""", """    const bool above = (trunc > half);
    if (above) {
        truncated_value++;
    }
    if (!above && trunc == half) {
"""),
('t-cnew', 'ALL', 'same', 'src/PIOL_C_bindings.cc',
 """    if (not_null(rule)) {
        return new Param(*rule, sz);
    }
    else {
        return new Param(sz);
    }""", """    return not_null(rule) ? new Param(*rule, sz) : new Param(sz);"""),
('t-crule', 'ALL', 'same', 'src/PIOL_C_bindings.cc',
 """    (**rule).addLong(m, loc);""", """    const std::shared_ptr<Rule>& r = *rule;
    r->addLong(m, loc);"""),
('t-rdir', 'ALL', 'same', 'src/ReadDirect.cc',
 """    const ReadSEGY::Opt f;
    const ObjectSEGY::Opt o;
    const DataMPIIO::Opt d;
    auto data = std::make_shared<DataMPIIO>(piol, name, d, FileMode::Read);
    auto obj =
      std::make_shared<ObjectSEGY>(piol, name, o, data, FileMode::Read);
    file = std::make_shared<ReadSEGY>(piol, name, f, obj);""",
 """    const FileMode mode = FileMode::Read;
    std::shared_ptr<DataMPIIO> data(new DataMPIIO(piol, name, DataMPIIO::Opt(), mode));
    auto obj = std::make_shared<ObjectSEGY>(piol, name, ObjectSEGY::Opt(), data, mode);
    file.reset(new ReadSEGY(piol, name, ReadSEGY::Opt(), obj));"""),
('t-rdir2', 'ALL', 'same', 'src/ReadDirect.cc',
 """    return file->readNt();""", """    const size_t n = file->readNt();
    return n;"""),
]
