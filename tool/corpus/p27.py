[
('as-fwrite', 'P27', 'bug', 'util/fourdbin.cc', '        assert(written);', '        assert(written && fputc(0, fOut) == 0);'),
('as-gather', 'P27', 'bug', 'src/Flow/Set.cc', '    assert(corners.size() == 2);', '    assert(corners.size() == 2);\n    size_t nn = 0;\n    assert(++nn == 1);'),
('as-nn', 'P27', 'bug', 'src/not_null.hh', '    return t != nullptr;', '    extern size_t gcount;\n    gcount++;\n    return t != nullptr;'),
('as-same', 'P27', 'same', 'src/Flow/Set.cc', '    assert(corners.size() == 2);', '    const bool two = corners.size() == 2;\n    (void)two;\n    assert(two);'),
('dv-assert', 'P22', 'bug', 'include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh', '    assert(rank >= 0);', '    assert(rank > 0);'),
]
