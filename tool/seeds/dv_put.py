property='P22'; file='include/ExSeisDat/utils/mpi/MPI_Distributed_vector.hh'; np=3
old='''          &val, T_size, MPI_BYTE, location.rank, location.local_index, T_size,
          MPI_BYTE, win);

        MPI_Win_unlock(location.rank, win);
    }
}
'''
new='''          &val, T_size, MPI_BYTE, location.rank,
          location.local_index % (global_size / num_ranks), T_size,
          MPI_BYTE, win);

        MPI_Win_unlock(location.rank, win);
    }
}
'''
needs='an element owned by a process with a longer block than the one that sets it'
what='the last element of the longer block is not set and its first is overwritten'
main=r'''
#include "ExSeisDat/utils/mpi/MPI_Distributed_vector.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    int bad = 0;
    {
        exseis::utils::MPI_Distributed_vector<double> v(8, p->comm->getComm());
        if (p->getRank() == 2) for (size_t i = 0; i < 8; i++) v.set(i, 1.5 + i);
        p->barrier();
        for (size_t i = 0; i < 8; i++) if (v.get(i) != 1.5 + i) bad = 1;
        p->barrier();
    }
    return bad;
}
'''
