property='P12'; file='src/WriteSEGY.cc'; np=2
old='''    writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
    state.stalent = true;
    if (sz != 0) {
        nt = std::max(offset + sz, nt);
    }
'''
new='''    writeTraceT(obj.get(), ns, offset, sz, trc, prm, skip);
    if (sz != 0) {
        state.stalent = (offset + sz > nt);
        nt            = std::max(offset + sz, nt);
    }
'''
needs='several processes, one of which writes nothing'
what='processes disagree on whether the trace count has to be agreed on, and closing blocks'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/WriteDirect.hh"
#include <fstream>
#include <unistd.h>
using namespace exseis::PIOL;
int main() {
    alarm(40);
    auto p = ExSeis::New();
    {
        WriteDirect w(p, "./x");
        w.writeNs(3);
        std::vector<float> t(6, 1.f);
        w.writeTrace(0, p->getRank() ? 0 : 2, t.data());
    }
    p->barrier();
    std::ifstream f("x", std::ios::binary | std::ios::ate);
    return f.tellg() == std::streampos(3600 + 2 * 252) ? 0 : 1;
}
'''
