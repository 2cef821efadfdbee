property='P07'; file='src/DataMPIIO.cc'
old='''            return MPI_MODE_CREATE | MPI_MODE_RDWR | MPI_MODE_UNIQUE_OPEN;

        case FileMode::Test:'''
new='''        case FileMode::Test:'''
needs='a file opened for reading and writing'
what='the file is deleted when it is closed'
main=r'''
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    {
        DataMPIIO d(p, "./f", FileMode::ReadWrite);
        unsigned char b[10] = {1};
        d.write(0, 10, b);
    }
    return access("f", F_OK) == 0 ? 0 : 1;
}
'''
