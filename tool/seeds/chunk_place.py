property='P02'; file='src/DataMPIIO.cc'
old='''          reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[i * bsz], &stat);'''
new='''          reinterpret_cast<const MPI_Aint*>(&offset[i]), &d[(i / max) * chunk * bsz],
          &stat);'''
needs='a list request larger than the limit whose last piece is shorter'
what='the last piece of a list transfer lands at the wrong place of the buffer'
main=r'''
#include "ExSeisDat/PIOL/DataMPIIO.hh"
#include "ExSeisDat/PIOL/ExSeis.hh"
#include <fstream>
using namespace exseis::PIOL;
int main() {
    auto p = ExSeis::New();
    { std::ofstream f("x"); for (int i = 0; i < 2000; i++) f << char(i % 251); }
    DataMPIIO::Opt o;
    o.maxSize = 80;
    DataMPIIO d(p, "./x", o, FileMode::Read);
    const size_t bsz = 10, n = 11;
    std::vector<unsigned char> b(2 * bsz * n, 255);
    std::vector<size_t> off;
    for (size_t i = 0; i < n; i++) off.push_back(i * 37);
    d.read(bsz, n, off.data(), b.data());
    for (size_t i = 0; i < n; i++)
        for (size_t j = 0; j < bsz; j++)
            if (b[i * bsz + j] != (unsigned char)(char)((off[i] + j) % 251)) return 1;
    return 0;
}
'''
