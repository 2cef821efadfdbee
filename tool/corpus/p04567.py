[
('iol-drop', 'P05', 'bug', 'src/DataMPIIO.cc', 'return (io_err != MPI_SUCCESS ? io_err : err);', '(void)io_err; return err;'),
('iol-early', 'P06', 'bug', 'src/DataMPIIO.cc', '    // Reset the view, even if the transfer failed.\n', '    if (io_err != MPI_SUCCESS) return io_err;\n'),
('iol-free-first', 'P06', 'bug', 'src/DataMPIIO.cc', '    const int io_err = fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);\n', '    const int io_err = fn(file, 0, d, chunk * bsz, MPI_CHAR, stat);\n    if (io_err != MPI_SUCCESS) { MPI_Type_free(&type); return io_err; }\n'),
('contig-rem', 'P05', 'bug', 'src/DataMPIIO.cc', '    for (size_t i = 0; i < remCall; i++) {\n        int err =\n          fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);\n\n        if (err != MPI_SUCCESS) {', '    for (size_t i = 0; i < remCall; i++) {\n        int err =\n          fn(file, 0, NULL, 0, exseis::utils::MPI_type<unsigned char>(), &stat);\n\n        if (err != MPI_SUCCESS && i == 0) {'),
('setsz-warn', 'P05', 'bug', 'src/DataMPIIO.cc', 'int err = MPI_File_set_size(file, MPI_Offset(sz));\n\n    if (err != MPI_SUCCESS) {\n        log_->record(\n          name_, Logger::Layer::Data, Logger::Status::Error,', 'int err = MPI_File_set_size(file, MPI_Offset(sz));\n\n    if (err != MPI_SUCCESS) {\n        log_->record(\n          name_, Logger::Layer::Data, Logger::Status::Warning,'),
('listio-last', 'P05', 'bug', 'src/DataMPIIO.cc', '        // Log and break on failure\n        if (err != MPI_SUCCESS) {', '        // Log and break on failure\n        if (err != MPI_SUCCESS && i + max < sz) {'),
('helper-log', 'P05', 'same', 'src/DataMPIIO.cc', '    if (err != MPI_SUCCESS) {\n        log_->record(\n          name_, Logger::Layer::Data, Logger::Status::Error,\n          "MPI_File_set_size error: "s\n            + exseis::utils::MPI_error_to_string(err),\n          PIOL_VERBOSITY_NONE);\n    }', '    logErr(log_, name_, err, "MPI_File_set_size error: ");', 'void DataMPIIO::setFileSz(', 'static void logErr(Logger* l, const std::string& name, int err, std::string m)\n{\n    if (err == MPI_SUCCESS) return;\n    l->record(name, Logger::Layer::Data, Logger::Status::Error, m + exseis::utils::MPI_error_to_string(err), PIOL_VERBOSITY_NONE);\n}\n\nvoid DataMPIIO::setFileSz('),
('wait-snd', 'P05', 'bug', 'src/sort.cc', '            err = MPI_Wait(&req2[i], &stat);\n\n            if (err != MPI_SUCCESS) {', '            err = MPI_Wait(&req2[i], &stat);\n\n            if (err == MPI_ERR_PENDING) {'),
('world-exscan', 'P04', 'bug', 'src/CommunicatorMPI.cc', 'exseis::utils::MPI_type<size_t>(), MPI_SUM, comm);', 'exseis::utils::MPI_type<size_t>(), MPI_SUM, MPI_COMM_WORLD);'),
('world-sort', 'P04', 'bug', 'src/sort.cc', 'dat.data(), cnt, MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rrcv[0]);', 'dat.data(), cnt, MPI_CHAR, rank - 1, 1, MPI_COMM_WORLD, &rrcv[0]);'),
('opt-world', 'P04', 'bug', 'src/DataMPIIO.cc', 'fcomm = MPI_COMM_NULL;', 'fcomm = MPI_COMM_WORLD;'),
('gather-self', 'P04', 'bug', 'src/gather.cc', 'piol->comm->sum(sz), piol->comm->getComm());', 'piol->comm->sum(sz), MPI_COMM_WORLD);'),
('comm-local', 'P04', 'same', 'src/sort.cc', '    size_t cnt  = regionSz * sizeof(T);\n\n    std::vector<MPI_Request> rsnd(1);\n    std::vector<MPI_Request> rrcv(1);\n\n    // TODO', '    size_t cnt  = regionSz * sizeof(T);\n    const MPI_Comm comm = piol->comm->getComm();\n\n    std::vector<MPI_Request> rsnd(1);\n    std::vector<MPI_Request> rrcv(1);\n\n    // TODO', 'dat.data(), cnt, MPI_CHAR, rank - 1, 1, piol->comm->getComm(), &rrcv[0]);', 'dat.data(), cnt, MPI_CHAR, rank - 1, 1, comm, &rrcv[0]);'),
('readv-nofree', 'P06', 'bug', 'src/DataMPIIO.cc', '    read(0LU, nb * bsz, d);\n\n    // Reset the view.\n    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);\n    if (err == MPI_SUCCESS) {', '    read(0LU, nb * bsz, d);\n\n    // Reset the view.\n    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);\n    if (err == MPI_SUCCESS && nb != 0) {'),
('readv-view', 'P06', 'bug', 'src/DataMPIIO.cc', '    write(0LU, nb * bsz, d);\n\n    // Reset the view.\n    err = MPI_File_set_view(file, 0, MPI_CHAR, MPI_CHAR, "native", info);', '    write(0LU, nb * bsz, d);\n\n    // Reset the view.\n    err = MPI_File_set_view(file, offset, MPI_CHAR, MPI_CHAR, "native", info);'),
('win-lock', 'P06', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'MPI_Win_unlock(location.rank, win);\n    }', 'MPI_Win_unlock(rank, win);\n    }'),
('close-info', 'P06', 'bug', 'src/DataMPIIO.cc', '        info = MPI_INFO_NULL;\n    }\n\n    err = MPI_File_open', '    }\n    info = MPI_INFO_NULL;\n\n    err = MPI_File_open'),
('opt-copy', 'P06', 'bug', 'src/DataMPIIO.cc', '    const DataMPIIO::Opt opt;\n    Init(opt, mode);', '    const DataMPIIO::Opt opt;\n    const DataMPIIO::Opt o2(opt);\n    Init(o2, mode);'),
('opt-auto', 'P06', 'same', 'src/DataMPIIO.cc', '    const DataMPIIO::Opt opt;\n    Init(opt, mode);', '    const auto opt = DataMPIIO::Opt();\n    Init(opt, mode);'),
('mode-del', 'P07', 'bug', 'src/DataMPIIO.cc', 'return MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN;', 'return MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_DELETE_ON_CLOSE;'),
('mode-read', 'P07', 'bug', 'src/ReadDirect.cc', 'd, FileMode::Read)', 'd, FileMode::ReadWrite)'),
('mode-tmpl', 'P07', 'bug', 'include/ExSeisDat/PIOL/ReadDirect.hh', 'std::make_shared<typename D::Type>(piol, name, d, FileMode::Read);', 'std::make_shared<typename D::Type>(piol, name, d, FileMode::ReadWrite);'),
('read-writes', 'P07', 'bug', 'src/ObjectSEGY.cc', 'void ObjectSEGY::readHO(unsigned char* ho) const\n{', 'void ObjectSEGY::readHO(unsigned char* ho) const\n{\n    if (data_->getFileSz() < 3600) data_->setFileSz(3600);'),
('mode-if', 'P07', 'same', 'src/DataMPIIO.cc', '    switch (mode) {\n        default:\n        case FileMode::Read:\n            return MPI_MODE_RDONLY | MPI_MODE_UNIQUE_OPEN;\n', '    if (mode == FileMode::Read) {\n        return MPI_MODE_UNIQUE_OPEN | MPI_MODE_RDONLY;\n    }\n    switch (mode) {\n        default:\n            return MPI_MODE_RDONLY | MPI_MODE_UNIQUE_OPEN;\n'),
]
