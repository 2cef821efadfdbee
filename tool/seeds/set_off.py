property='P24'; file='src/Flow/Set.cc'; np=2
old='''    off += f->ifc->readNt();
'''
new='''    off += dec.local_size;
'''
needs='several files of the same kind added to a set on more than one process'
what='traces of one file overwrite those of another in the output'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ReadDirect.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/Flow/Set.hh"
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(60);
    auto p = ExSeis::New();
    const size_t r = p->comm->getRank();
    for (size_t k = 0; k < 2; k++) {
        WriteDirect w(p, k ? "in1.segy" : "in0.segy");
        w.writeNs(3);
        w.writeInc(0.004);
        w.writeNt(6);
        Param prm(3);
        std::vector<float> t(9);
        for (size_t i = 0; i < 9; i++) t[i] = float(100 * k + 3 * r + i / 3);
        w.writeTrace(3 * r, 3, t.data(), &prm);
    }
    p->comm->barrier();
    std::vector<std::string> names;
    {
        exseis::Flow::Set s(p, "in?.segy");
        names = s.output("all");
    }
    p->comm->barrier();
    size_t bad = names.size() != 1;
    if (!bad) {
        ReadDirect f(p, names[0]);
        std::vector<float> t(36, -1.f);
        bad = f.readNt() != 12 || f.readNs() != 3;
        if (!bad) f.readTrace(size_t(0), size_t(12), t.data());
        for (size_t i = 0; i < 36 && !bad; i++) bad = t[i] != float(100 * (i / 18) + (i % 18) / 3);
    }
    return p->comm->max(bad) != 0;
}
'''
link='"$repo/_build/libexseisdat.a" -lfftw3f'
