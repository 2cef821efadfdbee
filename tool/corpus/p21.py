F = 'src/utils/encoding/character_encoding.cc'
_b = [
 ('pair', F, "{0x73u, 0xA2u}", "{0x73u, 0xA3u}"),
 ('sub', F, "char_sub{0x1Au, 0x3Fu}", "char_sub{0x3Fu, 0x1Au}"),
 ('sort', F, "        return a.ebcdic < b.ebcdic;", "        return a.ascii < b.ascii;"),
 ('array', F, "ascii_sorted_array = build_ascii_sorted_array()", "ascii_sorted_array = build_ebcdic_sorted_array()"),
 ('res', F, "return ebcdic_char_it->ascii;", "return ebcdic_char_it->ebcdic;"),
 ('eq', F, "      || ebcdic_char_it->ebcdic != ebcdic_char) {", "      || ebcdic_char_it->ebcdic > 254) {"),
 ('eq2', F, "      || ascii_char_it->ascii != ascii_char) {", "      ) {"),
 ('subres', F, "        return char_sub.ebcdic;", "        return char_sub.ascii;"),
 ('upper', F, "const auto& ascii_char_it = std::lower_bound(\n      std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,\n      compare_ascii);", "const auto& ascii_char_it = std::lower_bound(\n      std::begin(ascii_sorted_array) + 1, std::end(ascii_sorted_array), ascii_char,\n      compare_ascii);"),
 ('print', F, "ascii_char >= 0x20", "ascii_char > 0x20"),
 ('printe', F, "return is_printable_ASCII(to_ASCII_from_EBCDIC(ebcdic_char));", "return is_printable_ASCII(ebcdic_char) || is_printable_ASCII(to_ASCII_from_EBCDIC(ebcdic_char));"),
 ('signed', F, "    const auto compare_ebcdic = [](Character_encoding a, unsigned char b) {", "    const auto compare_ebcdic = [](Character_encoding a, signed char b) {"),
]
_s = [
 ('find', F, """    const auto& ascii_char_it = std::lower_bound(
      std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
      compare_ascii);
""", """    (void)compare_ascii;
    const auto ascii_char_it = std::find_if(
      std::begin(ascii_sorted_array), std::end(ascii_sorted_array),
      [ascii_char](const Character_encoding& c) { return c.ascii == ascii_char; });
"""),
 ('loop', F, """    const auto& ascii_char_it = std::lower_bound(
      std::begin(ascii_sorted_array), std::end(ascii_sorted_array), ascii_char,
      compare_ascii);

    if (
      ascii_char_it == std::end(ascii_sorted_array)
      || ascii_char_it->ascii != ascii_char) {
        return char_sub.ebcdic;
    }
    return ascii_char_it->ebcdic;
""", """    (void)compare_ascii;
    for (const auto& c : ascii_sorted_array) {
        if (c.ascii == ascii_char) {
            return c.ebcdic;
        }
    }
    return char_sub.ebcdic;
"""),
 ('index', F, """    const auto& ebcdic_char_it = std::lower_bound(
      std::begin(ebcdic_sorted_array), std::end(ebcdic_sorted_array),
      ebcdic_char, compare_ebcdic);
""", """    const auto ebcdic_char_it = std::lower_bound(
      ebcdic_sorted_array.begin(), ebcdic_sorted_array.end(), ebcdic_char,
      [](const Character_encoding& a, unsigned char b) { return b > a.ebcdic; });
    (void)compare_ebcdic;
"""),
 ('range', F, "    return (ascii_char >= 0x20 && ascii_char <= 0x7E);", "    constexpr unsigned char first = ' ';\n    constexpr unsigned char last  = '~';\n    return !(ascii_char < first || last < ascii_char);"),
 ('copy', F, "    Character_encodings a = character_encoding_array;\n\n    const auto less_ascii = [](Character_encoding a, Character_encoding b) {\n        return a.ascii < b.ascii;\n    };\n\n    std::sort(std::begin(a), std::end(a), less_ascii);\n\n    return a;", "    auto sorted = character_encoding_array;\n    std::sort(sorted.begin(), sorted.end(), [](const Character_encoding& x, const Character_encoding& y) {\n        return y.ascii > x.ascii;\n    });\n    return sorted;"),
]
CASES = [('p21-' + n, 'P21', 'bug', f, a, b) for n, f, a, b in _b] + [('p21-s-' + n, 'P21', 'same', f, a, b) for n, f, a, b in _s]
