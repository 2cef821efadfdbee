[
('dv-bytes', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', '      local_size * sizeof(T), sizeof(T), MPI_INFO_NULL', '      local_size, sizeof(T), MPI_INFO_NULL'),
('dv-unit', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'local_size * sizeof(T), sizeof(T), MPI_INFO_NULL', 'local_size * sizeof(T), 1, MPI_INFO_NULL'),
('dv-range', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)\n{\n    if (i >= global_size) {', 'void MPI_Distributed_vector<T>::Model::set(size_t i, const T& val)\n{\n    if (i > global_size) {'),
('dv-rank', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'block_decomposition(global_size, num_ranks, rank);', 'block_decomposition(global_size, num_ranks, num_ranks - 1 - rank);'),
('dv-lock', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'MPI_Win_lock(MPI_LOCK_EXCLUSIVE', 'MPI_Win_lock(MPI_LOCK_SHARED'),
('dv-target', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', '          &val, T_size, MPI_BYTE, location.rank, location.local_index, T_size,\n          MPI_BYTE, win);\n\n        MPI_Win_unlock(location.rank, win);\n    }\n}', '          &val, T_size, MPI_BYTE, location.rank, i, T_size,\n          MPI_BYTE, win);\n\n        MPI_Win_unlock(location.rank, win);\n    }\n}'),
('dv-local', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'data[location.local_index] = val;', 'data[i] = val;'),
('dv-getlocal', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'return data[location.local_index];', 'return data[location.local_index + 1];'),
('dv-size', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', 'const size_t T_size = sizeof(T);\n        MPI_Get(', 'const size_t T_size = sizeof(T) - 1;\n        MPI_Get('),
('dv-barrier', 'P22', 'bug', 'src/gather.cc', '    piol->comm->barrier();\n', '    // none\n'),
('dv-inverted', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', '    assert(rank >= 0);\n    if (location.rank == static_cast<size_t>(rank)) {\n        return', '    assert(rank >= 0);\n    if (location.rank != static_cast<size_t>(rank)) {\n        return'),
('dv-same', 'P22', 'same', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', '    if (location.rank == static_cast<size_t>(rank)) {\n        data[location.local_index] = val;\n    }\n    else {', '    const bool mine = (location.rank == static_cast<size_t>(rank));\n    if (mine) {\n        T* const base = data;\n        base[location.local_index] = val;\n        return;\n    }\n    {'),
('dv-bytes-same', 'P22', 'same', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', '    MPI_Win_allocate(\n      local_size * sizeof(T), sizeof(T),', '    const size_t bytes = sizeof(T) * local_size;\n    MPI_Win_allocate(\n      bytes, sizeof(T),'),
('crd-field', 'P22', 'bug', 'util/4dcore.cc', '      crd->yRcv, crd->sz, exseis::utils::MPI_type<fourd_t>(), lrank, 0, sz,\n      exseis::utils::MPI_type<fourd_t>(), win[3]', '      crd->yRcv, crd->sz, exseis::utils::MPI_type<fourd_t>(), lrank, 0, sz,\n      exseis::utils::MPI_type<fourd_t>(), win[1]'),
('crd-win', 'P22', 'bug', 'util/4dcore.cc', '      crd->xRcv, crd->sz * sizeof(fourd_t)', '      crd->xSrc, crd->sz * sizeof(fourd_t)'),
('crd-tag', 'P22', 'bug', 'util/4dcore.cc', '      crd->ySrc, crd->sz, exseis::utils::MPI_type<fourd_t>(), lrank, 1,\n      MPI_COMM_WORLD, &request[1]));\n    MPIErr(MPI_Irecv(', '      crd->ySrc, crd->sz, exseis::utils::MPI_type<fourd_t>(), lrank, 3,\n      MPI_COMM_WORLD, &request[1]));\n    MPIErr(MPI_Irecv('),
('crd-type', 'P22', 'bug', 'util/4dcore.cc', '      crd->tn, crd->sz, exseis::utils::MPI_type<size_t>(), lrank, 0, sz,\n      exseis::utils::MPI_type<size_t>()', '      crd->tn, crd->sz, exseis::utils::MPI_type<fourd_t>(), lrank, 0, sz,\n      exseis::utils::MPI_type<fourd_t>()'),
('dec-off', 'P23', 'bug', 'src/utils/decomposition/block_decomposition.cc', 'chunk_size * rank + std::min(rank, remainder)', 'chunk_size * rank + remainder'),
('dec-extra', 'P23', 'bug', 'src/utils/decomposition/block_decomposition.cc', 'static_cast<size_t>(rank < remainder)', 'static_cast<size_t>(rank <= remainder)'),
('dec-last', 'P23', 'bug', 'src/utils/decomposition/block_decomposition.cc', 'const size_t local_size  = chunk_size + extra_piece;', 'const size_t local_size  = (rank + 1 == num_ranks ? range_size / num_ranks + extra_piece + 1 : chunk_size + extra_piece);'),
('loc-bound', 'P23', 'same', 'src/utils/decomposition/block_decomposition.cc', 'if (global_index < (chunk_size + 1) * remainder) {', 'if (global_index <= (chunk_size + 1) * remainder) {'),
('loc-div', 'P23', 'same', 'src/utils/decomposition/block_decomposition.cc', 'if (global_index < (chunk_size + 1) * remainder) {', 'if (global_index / (chunk_size + 1) < remainder) {'),
('loc-bound2', 'P23', 'bug', 'src/utils/decomposition/block_decomposition.cc', 'if (global_index < (chunk_size + 1) * remainder) {', 'if (global_index <= (chunk_size + 1) * remainder + (remainder > 0 ? 1 : 0)) {'),
('loc-local', 'P23', 'bug', 'src/utils/decomposition/block_decomposition.cc', 'global_index - chunk_size * rank - remainder', 'global_index - chunk_size * rank'),
('dec-same', 'P23', 'same', 'src/utils/decomposition/block_decomposition.cc', '    const size_t global_offset = chunk_size * rank + std::min(rank, remainder);\n', '    size_t global_offset = chunk_size * rank;\n    if (rank < remainder) {\n        global_offset += rank;\n    }\n    else {\n        global_offset += remainder;\n    }\n'),
('loc-same', 'P23', 'same', 'src/utils/decomposition/block_decomposition.cc', 'const size_t local_index = global_index - (chunk_size + 1) * rank;', 'const size_t local_index = global_index % (chunk_size + 1);'),
('op-max', 'P30', 'bug', 'src/CommunicatorMPI.cc', 'return getMPIOp(log, this, val, MPI_MAX);', 'return getMPIOp(log, this, val, MPI_SUM);'),
('op-rank0', 'P30', 'bug', 'src/CommunicatorMPI.cc', 'return (rank == 0 ? 0LU : offset);', 'return (rank == 0 ? val : offset);'),
('op-scan', 'P30', 'bug', 'src/CommunicatorMPI.cc', 'int err       = MPI_Exscan(', 'int err       = MPI_Scan('),
('op-type', 'P30', 'bug', 'src/CommunicatorMPI.cc', '&val, &result, 1, exseis::utils::MPI_type<T>(), op,', '&val, &result, 1, exseis::utils::MPI_type<int>(), op,'),
('ga-cnt', 'P30', 'bug', 'src/CommunicatorMPI.cc', 'arr.data(), in.size(),\n      exseis::utils::MPI_type<T>(), mpi->getComm()', 'arr.data(), in.size() * 1 + 0 * in.size() + (in.size() > 4 ? 1 : 0),\n      exseis::utils::MPI_type<T>(), mpi->getComm()'),
('ga-len', 'P30', 'bug', 'src/CommunicatorMPI.cc', 'arr(mpi->getNumRank() * in.size())', 'arr((mpi->getNumRank() - 1) * in.size() + 1)'),
('ga-rank', 'P30', 'bug', 'src/CommunicatorMPI.cc', '    rank    = irank;', '    rank    = inumRank - 1 - irank;'),
('op-same', 'P30', 'same', 'src/CommunicatorMPI.cc', '    T result = 0;\n    int err  = MPI_Allreduce(\n      &val, &result, 1,', '    T result = 0;\n    T mine = val;\n    const int one = 1;\n    int err  = MPI_Allreduce(\n      &mine, &result, one,'),
('ga-same', 'P30', 'same', 'src/CommunicatorMPI.cc', '    std::vector<T> arr(mpi->getNumRank() * in.size());', '    const size_t each = in.size();\n    std::vector<T> arr(each * mpi->getNumRank());'),
]
