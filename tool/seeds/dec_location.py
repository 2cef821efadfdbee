property='P23'; file='src/utils/decomposition/block_decomposition.cc'
old='if (global_index < (chunk_size + 1) * remainder) {'
new='if (global_index / (chunk_size + 1) <= remainder) {'
needs='the first index of the second short block'
what='the location of that index is a rank and position outside that rank block'
main=r'''
#include "ExSeisDat/utils/decomposition/block_decomposition.h"
using namespace exseis::utils;
int main() {
    for (size_t n = 1; n < 40; n++)
        for (size_t r = 1; r < 8; r++)
            for (size_t i = 0; i < n; i++) {
                auto l = block_decomposition_location(n, r, i);
                auto d = block_decomposition(n, r, l.rank);
                if (l.rank >= r || l.local_index >= d.local_size || d.global_offset + l.local_index != i) return 1;
            }
    return 0;
}
'''
