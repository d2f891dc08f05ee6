#include "h.hh"
extern "C" {
#include "trick/bitfield_proto.h"
}
int main(int c, char **v) {
    H h(c, v);
    while (h.more()) {
        int size = 1 << h.below(3), w = 8 * size;
        int bits = h.range(1, w), start = h.range(0, w - bits);
        uint32_t word = (uint32_t)h.u(), val = (uint32_t)h.u();
        if (h.below(4) == 0) word = h.coin() ? 0 : ~0u;
        if (h.below(4) == 0) val = h.coin() ? 0 : ~0u;
        uint32_t mask = 0xFFFFFFFFu >> (32 - bits); int lsb = w - start - bits;
        uint32_t f = (word >> lsb) & mask;
        int32_t sf = (f >> (bits - 1)) & 1 ? (int32_t)(f | ~mask) : (int32_t)f;
        uint32_t r = extract_unsigned_bitfield_any(word, size, start, bits);
        if (r != f) fail("extract_unsigned_bitfield_any(0x%x,%d,%d,%d) = 0x%x, expected 0x%x", word, size, start, bits, r, f);
        int32_t s = extract_bitfield_any((int)word, size, start, bits);
        if (s != sf) fail("extract_bitfield_any(0x%x,%d,%d,%d) = %d, expected %d", word, size, start, bits, s, sf);
        uint32_t e = (word & ~(mask << lsb)) | ((val & mask) << lsb);
        r = insert_bitfield_any(word, (int)val, size, start, bits);
        if (r != e) fail("insert_bitfield_any(0x%x,0x%x,%d,%d,%d) = 0x%x, expected 0x%x", word, val, size, start, bits, r, e);
        // the access macros, in memory
        union { unsigned char b[4]; uint32_t u; } m; m.u = word;
        unsigned char before[4]; memcpy(before, m.b, 4);
        uint32_t unit = size == 4 ? word : size == 2 ? (word & 0xFFFF) : (word & 0xFF);
        uint32_t uf = (unit >> lsb) & mask;
        uint32_t g = GET_UNSIGNED_BITFIELD(m.b, size, start, bits);
        if (g != uf) fail("GET_UNSIGNED_BITFIELD unit 0x%x size %d start %d bits %d = 0x%x, expected 0x%x", unit, size, start, bits, g, uf);
        int32_t gs = GET_BITFIELD(m.b, size, start, bits);
        int32_t us = (uf >> (bits - 1)) & 1 ? (int32_t)(uf | ~mask) : (int32_t)uf;
        if (gs != us) fail("GET_BITFIELD unit 0x%x size %d start %d bits %d = %d, expected %d", unit, size, start, bits, gs, us);
        PUT_BITFIELD(m.b, val, size, start, bits);
        uint32_t want = (unit & ~(mask << lsb)) | ((val & mask) << lsb), got = 0;
        memcpy(&got, m.b, size);
        if (got != want) fail("PUT_BITFIELD unit 0x%x value 0x%x size %d start %d bits %d stores 0x%x, expected 0x%x", unit, val, size, start, bits, got, want);
        for (int k = size; k < 4; k++) if (m.b[k] != before[k]) fail("PUT_BITFIELD size %d start %d bits %d writes outside its unit", size, start, bits);
    }
    return h.ok();
}
