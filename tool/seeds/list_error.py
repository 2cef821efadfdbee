property='P05'; file='src/DataMPIIO.cc'
old='''        // Log and break on failure
        if (err != MPI_SUCCESS) {'''
new='''        // Log and break on failure
        if (err != MPI_SUCCESS && i + chunk < sz) {'''
needs='a failure in the last piece of a list transfer'
what='the failed transfer is not recorded and the caller carries on with garbage'
main=r'''
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include <fstream>
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    { std::ofstream f("x"); f << std::string(2000, 'a'); }
    DataMPIIO d(p, "./x", FileMode::Read);
    if (p->log->isErr()) return 2;
    std::vector<unsigned char> b(100, 1);
    size_t off[] = {10, 50};
    d.write(10, 2, off, b.data());
    return p->log->isErr() ? 0 : 1;
}
'''
