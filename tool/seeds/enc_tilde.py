property='P21'; file='src/utils/encoding/character_encoding.cc'; np=1
old='''(ascii_char >= 0x20 && ascii_char <= 0x7E)'''
new='''(ascii_char >= 0x20 && ascii_char < 0x7E)'''
needs='the last printable character, a tilde'
what='tildes do not count as printable when the code of a text is worked out'
main=r'''
#include "ExSeisDat/utils/encoding/character_encoding.hh"
using namespace exseis::utils;
int main() {
    int n = 0;
    for (int i = 0; i < 256; i++) n += is_printable_ASCII(i);
    return !(n == 95 && is_printable_ASCII('~') && is_printable_EBCDIC(0xA1) && !is_printable_ASCII(0x7F));
}
'''
