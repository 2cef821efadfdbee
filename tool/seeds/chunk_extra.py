property='P03'; file='src/DataMPIIO.cc'
old='''    remCall = (remCall / max + static_cast<size_t>(remCall % max > 0))
              - (sz / max + static_cast<size_t>(sz % max > 0));'''
new='''    remCall = (remCall / max + static_cast<size_t>(remCall % max > 0))
              - (sz == 0 ? 0LU : (sz - 1) / max);'''
needs='processes that need different numbers of calls because one request is a whole number of pieces and empty on another'
what='processes make different numbers of collective calls, so the read hangs'
np=2
main=r'''
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include <fstream>
#include <unistd.h>
using namespace exseis::PIOL;
static size_t calls = 0;
extern "C" int MPI_File_read_at_all(MPI_File f, MPI_Offset o, void* b, int c, MPI_Datatype t, MPI_Status* s)
{
    calls++;
    return PMPI_File_read_at_all(f, o, b, c, t, s);
}
int main() {
    auto p = ExSeis::New();
    if (p->getRank() == 0) { std::ofstream f("x"); f << std::string(10000, 'a'); }
    p->barrier();
    DataMPIIO::Opt o;
    o.maxSize = 1000;
    DataMPIIO d(p, "./x", o, FileMode::Read);
    std::vector<unsigned char> b(3000);
    d.read(0, p->getRank() == 0 ? 0 : 1500, b.data());
    p->isErr();
    if (p->comm->max(calls) != calls) return 1;
    return p->getRank() == 0 || b[1499] == 'a' ? 0 : 1;
}
'''
