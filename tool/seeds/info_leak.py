property='P06'; file='src/DataMPIIO.cc'
old='''DataMPIIO::~DataMPIIO(void)
{
'''
new='''DataMPIIO::~DataMPIIO(void)
{
    if (isFileNull()) {
        return;
    }

'''
needs='an open that fails'
what='the info object duplicated for the file is never released'
main=r'''
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
using namespace exseis::PIOL;
static int live = 0;
extern "C" int MPI_Info_create(MPI_Info* i) { live++; return PMPI_Info_create(i); }
extern "C" int MPI_Info_dup(MPI_Info a, MPI_Info* i) { live++; return PMPI_Info_dup(a, i); }
extern "C" int MPI_Info_free(MPI_Info* i) { live--; return PMPI_Info_free(i); }
int main() {
    auto p = ExSeis::New();
    int before = live;
    { DataMPIIO d(p, "./no/such/file", FileMode::Read); }
    return live == before ? 0 : 1;
}
'''
