property='P30'; file='src/CommunicatorMPI.cc'; np=3
old='return getMPIOp(log, this, val, MPI_MAX);'
new='return getMPIOp(log, this, val, MPI_SUM);'
needs='more than one process'
what='max() over processes returns the sum'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    size_t r = p->getRank(), n = p->getNumRank();
    size_t m = p->max(10 * (r + 1));
    return m == 10 * n ? 0 : 1;
}
'''
