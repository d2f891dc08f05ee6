#include "h.hh"
extern "C" {
#include "trick/attributes.h"
#include "trick/tc_proto.h"
#include "trick/trick_byteswap.h"
void *trick_bswap_single_parameter(void *, void *, ATTRIBUTES *, int);
long long tbs_long_long(long long); double tbs_double(double); float tbs_float(float); long tbs_long(long); int tbs_int(int); short tbs_short(short);
}
static void rev(const void *a, void *b, int n) { for (int i = 0; i < n; i++) ((char *)b)[i] = ((const char *)a)[n - 1 - i]; }
template <class T> void chk(const char *nm, T (*f)(T), uint64_t bits) {
    union { T t; unsigned char b[8]; } x, w, r; memcpy(x.b, &bits, 8); rev(x.b, w.b, sizeof(T));
    r.t = f(x.t);
    if (memcmp(r.b, w.b, sizeof(T))) fail("%s(bytes 0x%llx) does not reverse the %d bytes", nm, (unsigned long long)bits, (int)sizeof(T));
}
static void mk(ATTRIBUTES &a, const char *n, TRICK_TYPE t, int size, long off, std::vector<int> dims) {
    memset(&a, 0, sizeof a); a.name = n; a.type = t; a.size = size; a.offset = off; a.num_index = dims.size();
    for (size_t i = 0; i < dims.size(); i++) a.index[i].size = dims[i];
}
static TRICK_TYPE ty(int s, bool c) { return s == 1 ? (c ? TRICK_CHARACTER : TRICK_BOOLEAN) : s == 2 ? (c ? TRICK_SHORT : TRICK_UNSIGNED_SHORT) : s == 4 ? (c ? TRICK_INTEGER : TRICK_FLOAT) : (c ? TRICK_DOUBLE : TRICK_LONG_LONG); }
int main(int c, char **v) {
    H h(c, v);
    long round = 0;
    while (h.more()) {
        if (round++ % 256 == 0) {     // a large array
            static ATTRIBUTES big[2]; int a = h.range(200, 400), b = h.range(200, 400), s = 2 << h.below(3); mk(big[0], "b", ty(s, true), s, 0, {a, b}); mk(big[1], "", TRICK_VOID, 0, 0, {});
            std::vector<unsigned char> in((size_t)a * b * s), out(in.size()), want(in.size()); for (auto &x : in) x = h.u() >> 40;
            for (size_t i = 0; i < in.size(); i += s) rev(&in[i], &want[i], s);
            trick_bswap_buffer(out.data(), in.data(), big, h.coin());
            if (out != want) fail("trick_bswap_buffer: array of %d x %d elements of %d bytes converted wrongly", a, b, s);
            out.assign(out.size(), 0); trick_bswap_single_parameter(out.data(), in.data(), big, h.coin());
            if (out != want) fail("trick_bswap_single_parameter: array of %d x %d elements of %d bytes converted wrongly", a, b, s);
        }
        // bit patterns of signalling NaNs may be quieted by the FPU on some machines: not generated for by-value floats
        uint64_t b = h.u(); if (h.below(3) == 0) b &= 0xFFull << (8 * h.below(8));
        chk<long>("trick_byteswap_long", trick_byteswap_long, b); chk<int>("trick_byteswap_int", trick_byteswap_int, b); chk<short>("trick_byteswap_short", trick_byteswap_short, b);
        chk<double>("trick_byteswap_double", trick_byteswap_double, b); chk<float>("trick_byteswap_float", trick_byteswap_float, b);
        chk<long>("tbs_long", tbs_long, b); chk<int>("tbs_int", tbs_int, b); chk<short>("tbs_short", tbs_short, b); chk<long long>("tbs_long_long", tbs_long_long, b);
        chk<double>("tbs_double", tbs_double, b); chk<float>("tbs_float", tbs_float, b);
        // a structure of up to 4 members, one of them possibly an array of sub-structures
        ATTRIBUTES sub[4], top[5]; std::vector<std::pair<long, int>> elems; long off = 0;
        auto member = [&](ATTRIBUTES &a, const char *n, long &o, std::vector<std::pair<long, int>> &el) {
            int s = 1 << h.below(4); std::vector<int> d; int nd = h.below(4), num = 1; for (int i = 0; i < nd; i++) { d.push_back(h.range(1, 4)); num *= d.back(); }
            o = (o + s - 1) / s * s; mk(a, n, ty(s, h.coin()), s, o, d);
            for (int i = 0; i < num; i++) el.push_back({o + i * s, s});
            o += num * s;
        };
        std::vector<std::pair<long, int>> sel; long soff = 0; int ns = h.range(1, 2);
        for (int i = 0; i < ns; i++) member(sub[i], "s", soff, sel);
        mk(sub[ns], "", TRICK_VOID, 0, 0, {});
        soff = (soff + 7) / 8 * 8;
        int nm = h.range(1, 4);
        long starts[5]; std::vector<std::pair<long, int>> per[5];
        for (int i = 0; i < nm; i++) {
            if (h.below(3) == 0) {
                int k = h.range(1, 4); off = (off + 7) / 8 * 8; mk(top[i], "t", TRICK_STRUCTURED, soff, off, k == 1 ? std::vector<int>{} : std::vector<int>{k}); top[i].attr = sub;
                for (int j = 0; j < k; j++) for (auto &e : sel) per[i].push_back({off + j * soff + e.first, e.second});
                starts[i] = off; off += k * soff;
            } else { member(top[i], "m", off, per[i]); starts[i] = top[i].offset; }
            for (auto &e : per[i]) elems.push_back(e);
        }
        mk(top[nm], "", TRICK_VOID, 0, 0, {});
        long n = (off + 15) / 8 * 8; int tf = h.coin();
        std::vector<uint64_t> in(n / 8), out(n / 8), want(n / 8);
        for (auto &x : in) x = h.u();
        for (auto &x : out) x = h.u();
        bool inpl = h.coin(); if (inpl) out = in;
        want = out;
        for (auto &e : elems) rev((char *)in.data() + e.first, (char *)want.data() + e.first, e.second);
        void *r = trick_bswap_buffer(out.data(), inpl ? out.data() : in.data(), top, tf);
        if (r != out.data()) fail("trick_bswap_buffer does not return its output");
        if (out != want) {
            for (auto &e : elems) if (memcmp((char *)out.data() + e.first, (char *)want.data() + e.first, e.second)) fail("trick_bswap_buffer tofrom=%d%s: element of %d bytes at offset %ld is not byte-reversed", tf, inpl ? " in place" : "", e.second, e.first);
            fail("trick_bswap_buffer tofrom=%d changes bytes outside the elements", tf);
        }
        // one parameter on its own
        int i = h.below(nm);
        if (top[i].type != TRICK_STRUCTURED) {
            for (auto &x : out) x = h.u();
            want = out; long base = starts[i];
            for (auto &e : per[i]) rev((char *)in.data() + e.first, (char *)want.data() + (e.first - base), e.second);
            trick_bswap_single_parameter(out.data(), (char *)in.data() + base, &top[i], tf);
            if (out != want) fail("trick_bswap_single_parameter tofrom=%d: size %d num_index %d converted wrongly", tf, top[i].size, top[i].num_index);
        } else {
            for (auto &x : out) x = h.u();
            want = out;
            for (auto &e : per[i]) rev((char *)in.data() + e.first, (char *)want.data() + e.first, e.second);
            trick_bswap_single_parameter(out.data(), in.data(), &top[i], tf);
            if (out != want) fail("trick_bswap_single_parameter tofrom=%d: structures converted wrongly", tf);
        }
    }
    return h.ok();
}
