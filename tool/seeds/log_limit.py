property='P28'; file='src/Logger.cc'
old='''    if (verbosity <= maxLevel) {
        loglist_.push_front({file, layer, stat, msg, verbosity});
    }
'''
new='''    if (verbosity > maxLevel) {
        return;
    }
    loglist_.push_front({file, layer, stat, msg, verbosity});
'''
needs='an error recorded with a verbosity above the limit'
what='the error flag is not set'
main=r'''
#include "ExSeisDat/PIOL/Logger.hh"
using namespace exseis::PIOL;
int main() {
    Logger l(PIOL_VERBOSITY_NONE);
    l.record("f", Logger::Layer::PIOL, Logger::Status::Error, "m", PIOL_VERBOSITY_MAX);
    bool e = l.isErr();
    return e ? 0 : 1;
}
'''
