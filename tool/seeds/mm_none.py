property='P25'; file='include/ExSeisDat/PIOL/operations/minmax.h'; np=2
old='''    for (exseis::utils::Integer i = tsz.size() - 1U; i >= 0; i--) {
'''
new='''    for (exseis::utils::Integer i = tsz.size() - 1U; i > 0; i--) {
'''
needs='two processes, the first without traces'
what='whatever the process without traces has in a default object takes part in the extremes'
main=r'''
#include "ExSeisDat/PIOL/ExSeis.hh"
#include "ExSeisDat/PIOL/operations/minmax.h"
#include <unistd.h>
using namespace exseis::PIOL;
struct Point { double x = 0, y = 0; };
int main() {
    alarm(60);
    auto p = ExSeis::New();
    const size_t r = p->getRank();
    std::vector<Point> c(r == 0 ? 0 : 3);
    for (size_t i = 0; i < c.size(); i++) { c[i].x = 5. + i; c[i].y = -5. - i; }
    CoordElem m[4];
    getMinMax<Point>(p.get(), 0, c.size(), c.data(), [](const Point& a) { return a.x; }, [](const Point& a) { return a.y; }, m);
    const double v[4] = {5, 7, -7, -5};
    const size_t n[4] = {0, 2, 2, 0};
    for (int i = 0; i < 4; i++)
        if (m[i].val != v[i] || m[i].num != n[i]) return 1;
    return 0;
}
'''
