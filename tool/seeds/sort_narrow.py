property='P13'; file='src/sort.cc'
old='''        return list[s1] < list[s2];'''
new='''        return static_cast<int>(list[s1] - list[s2]) < 0;'''
needs='an unordered list with positions more than 2^31 apart'
what='the positions are requested out of order, and places get the headers and samples of other traces'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/ObjectInterface.hh"
#include "ExSeisDat/PIOL/ReadSEGY.hh"
#include "ExSeisDat/PIOL/param_utils.hh"
#include "ExSeisDat/PIOL/segy_utils.hh"
using namespace exseis::PIOL;
using exseis::utils::Integer;
// a file of 2^33 traces without samples whose line number is the trace number modulo 1000
struct Obj : public ObjectInterface {
    Obj(std::shared_ptr<ExSeisPIOL> p) : ObjectInterface(p, "x", nullptr) {}
    size_t getFileSz(void) const override { return SEGY_utils::getFileSz(size_t(1) << 33, 0); }
    void readHO(unsigned char* h) const override { memset(h, 0, SEGY_utils::getHOSz()); }
    void writeHO(const unsigned char*) const override {}
    void readDOMD(const size_t, const size_t, const size_t, unsigned char*) const override {}
    void writeDOMD(const size_t, const size_t, const size_t, const unsigned char*) const override {}
    void writeDOMD(const size_t*, const size_t, const size_t, const unsigned char*) const override {}
    void readDODF(const size_t, const size_t, const size_t, unsigned char*) const override {}
    void writeDODF(const size_t, const size_t, const size_t, const unsigned char*) const override {}
    void readDODF(const size_t*, const size_t, const size_t, unsigned char*) const override {}
    void writeDODF(const size_t*, const size_t, const size_t, const unsigned char*) const override {}
    void readDO(const size_t, const size_t, const size_t, unsigned char*) const override {}
    void writeDO(const size_t, const size_t, const size_t, const unsigned char*) const override {}
    void readDO(const size_t*, const size_t, const size_t, unsigned char*) const override {}
    void writeDO(const size_t*, const size_t, const size_t, const unsigned char*) const override {}
    void readDOMD(const size_t* o, size_t, size_t sz, unsigned char* b) const override {
        for (size_t i = 0; i < sz; i++) {
            if (i && o[i] <= o[i - 1]) std::exit(1);
            memset(b + i * 240, 0, 240);
            b[i * 240 + 190] = (o[i] % 1000) >> 8;
            b[i * 240 + 191] = (o[i] % 1000) & 255;
        }
    }
};
int main() {
    auto p = ExSeis::New();
    ReadSEGY r(p, "x", std::make_shared<Obj>(p));
    size_t off[] = {7, (size_t(1) << 32) + 3, 5, size_t(3) << 31, 7};
    Param prm(std::make_shared<Rule>(std::initializer_list<Meta>{PIOL_META_il}), 5);
    r.readTraceNonMonotonic(5, off, const_cast<float*>(TRACE_NULL), &prm, 0);
    for (size_t i = 0; i < 5; i++)
        if (size_t(param_utils::getPrm<Integer>(i, PIOL_META_il, &prm)) != off[i] % 1000) return 1;
    return 0;
}
'''
