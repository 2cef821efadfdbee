property='P04'; file='src/gather.cc'; np=3
old='''      piol->comm->sum(sz), piol->comm->getComm());'''
new='''      piol->comm->sum(sz), MPI_COMM_WORLD);'''
needs='a library object created on a communicator smaller than the whole program'
what='the list of gathers is spread over all processes instead of those of the library object'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/operations/gather.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(40);
    MPI_Init(nullptr, nullptr);
    int r;
    MPI_Comm_rank(MPI_COMM_WORLD, &r);
    MPI_Comm c;
    MPI_Comm_split(MPI_COMM_WORLD, r == 0, r, &c);
    int bad = 0;
    if (r != 0) {
        auto p = ExSeis::New(PIOL_VERBOSITY_NONE, c);
        auto rule = std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il, PIOL_META_xl});
        {
            WriteDirect w(p, "./x");
            w.writeNs(4);
            w.writeNt(6);
            Param prm(rule, 3);
            for (size_t i = 0; i < 3; i++) {
                param_utils::setPrm(i, PIOL_META_il, exseis::utils::Integer(1 + (r == 2)), &prm);
                param_utils::setPrm(i, PIOL_META_xl, exseis::utils::Integer(5), &prm);
            }
            w.writeParam((r - 1) * 3, 3, &prm);
        }
        ReadDirect f(p, "./x");
        auto g = getIlXlGathers(p.get(), f);
        if (g.size() != 2) bad = 1;
        for (size_t i = 0; i < g.size(); i++)
            if (g.get(i).num_traces != 3) bad = 1;
        if (p->comm->sum(bad)) bad = 1;
    }
    MPI_Barrier(MPI_COMM_WORLD);
    MPI_Finalize();
    return bad;
}
'''
