property='P16'; file='src/PIOL_C_bindings.cc'
old='''    assert(not_null(src));
    assert(not_null(dst));

    param_utils::cpyPrm(i, src, j, dst);'''
new='''    assert(not_null(src));
    assert(not_null(dst));

    if (src == dst && i > j) {
        std::swap(i, j);
    }
    param_utils::cpyPrm(i, src, j, dst);'''
needs='copying a trace header to an earlier place of the same block through the C interface'
what='the copy goes the wrong way'
main=r'''
#include "ExSeisDat/PIOL.h"
int main() {
    PIOL_ExSeis* p = PIOL_ExSeis_new(PIOL_VERBOSITY_NONE);
    PIOL_File_Rule* r = PIOL_File_Rule_new(true);
    PIOL_File_Param* a = PIOL_File_Param_new(r, 4);
    for (int i = 0; i < 4; i++) PIOL_File_setPrm_Integer(i, PIOL_META_il, 10 + i, a);
    PIOL_File_cpyPrm(3, a, 1, a);
    int bad = PIOL_File_getPrm_Integer(1, PIOL_META_il, a) != 13 || PIOL_File_getPrm_Integer(3, PIOL_META_il, a) != 13;
    PIOL_File_Param_delete(a);
    PIOL_File_Rule_delete(r);
    PIOL_ExSeis_delete(p);
    return bad;
}
'''
