property='P21'; file='src/utils/encoding/character_encoding.cc'; np=1
edits=[('src/utils/encoding/character_encoding.cc','{0x7Bu, 0xC0u}','{0x7Bu, 0xD0u}'),('src/utils/encoding/character_encoding.cc','{0x7Du, 0xD0u}','{0x7Du, 0xC0u}')]
needs='a header text with braces'
what='opening braces become closing ones'
main=r'''
#include "ExSeisDat/utils/encoding/character_encoding.hh"
using namespace exseis::utils;
int main() {
    return !(to_ASCII_from_EBCDIC(0xC0) == '{' && to_ASCII_from_EBCDIC(0xD0) == '}' && to_EBCDIC_from_ASCII('{') == 0xC0 && to_EBCDIC_from_ASCII('}') == 0xD0);
}
'''
