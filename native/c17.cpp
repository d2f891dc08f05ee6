// Unicode conversions against an independent reference (C17)
#include "h.hh"
#include "trick/unicode_utils.h"
#include <wchar.h>
typedef unsigned int u32; typedef std::string S;
static S show(const S &s) { S r; char b[8]; for (unsigned char c : s) { snprintf(b, 8, c >= 32 && c < 127 ? "%c" : "<%02x>", c); r += b; } return r; }
static bool valid(u32 c) { return c < 0xd800 || (c > 0xdfff && c < 0x110000); }
static S enc(u32 c) { S r; if (c < 0x80) r += (char)c; else if (c < 0x800) { r += (char)(0xc0 + (c >> 6)); r += (char)(0x80 + c % 64); } else if (c < 0x10000) { r += (char)(0xe0 + (c >> 12)); r += (char)(0x80 + (c >> 6) % 64); r += (char)(0x80 + c % 64); }
    else { r += (char)(0xf0 + (c >> 18)); r += (char)(0x80 + (c >> 12) % 64); r += (char)(0x80 + (c >> 6) % 64); r += (char)(0x80 + c % 64); } return r; }
static void point(u32 c) {
    char a[6]; memset(a, 0x55, 6); S e = valid(c) ? enc(c) : ""; size_t n = ucodepoint_to_utf8(c, (char (*)[4])a);
    if (n != e.size() || memcmp(a, e.data(), n)) fail("ucodepoint_to_utf8(0x%x): %zu units %s, expected %s", c, n, show(S(a, n < 5 ? n : 0)).c_str(), show(e).c_str());
    for (size_t i = n; i < 6; i++) if (a[i] != 0x55) fail("ucodepoint_to_utf8(0x%x) writes unit %zu of %zu", c, i, n);
    int32_t w[2] = {0x55, 0x55}; n = ucodepoint_to_utf32(c, w); if (n != (size_t)valid(c) || w[0] != (valid(c) ? (int32_t)c : 0x55) || w[1] != 0x55) fail("ucodepoint_to_utf32(0x%x): %zu units, 0x%x", c, n, w[0]);
    int16_t h[3] = {0x55, 0x55, 0x55}; n = ucodepoint_to_utf16(c, (int16_t (*)[2])h); size_t m = !valid(c) ? 0 : c < 0x10000 ? 1 : 2;
    uint16_t lead = 0xd800 + ((c - 0x10000) >> 10), known = 0xd800 + (c >> 10);      // known: the recorded finding
    if (n != m || (m == 1 && (uint16_t)h[0] != c) || (m == 2 && (((uint16_t)h[0] != lead && (uint16_t)h[0] != known) || (uint16_t)h[1] != 0xdc00 + c % 1024)) || h[2] != 0x55 || (m < 2 && h[1] != 0x55)) fail("ucodepoint_to_utf16(0x%x): %zu units 0x%x 0x%x", c, n, (uint16_t)h[0], (uint16_t)h[1]);
}
static const char *CT = "\a\b\f\n\r\t\v", *CL = "abfnrtv";
static S esc(u32 c) { char b[16]; const char *p = c && c < 128 ? strchr(CT, c) : nullptr; if (p) return S("\\") + CL[p - CT]; if (c >= 32 && c < 127) return S(1, (char)c); snprintf(b, 16, c < 128 ? "\\x%02x" : c < 65536 ? "\\u%04x" : "\\U%08x", c); return b; }
// one conversion: exact buffers, so that the sanitiser sees every stray access
template <class In, class Out> static void conv(const char *name, size_t (*f)(const In *, Out *, size_t), size_t (*len)(const In *), const std::vector<In> &in, const std::vector<Out> *want, const S &text, size_t size) {
    std::vector<In> z(in); z.push_back(0); In *i = new In[z.size()]; std::copy(z.begin(), z.end(), i); Out *o = new Out[size]; for (size_t k = 0; k < size; k++) o[k] = 0x55;
    size_t r = f(i, o, size), full = want ? want->size() : 0; bool fits = want && full < size; size_t e = fits ? full : 0;
    if (r != e) fail("%s of %s into %zu: length %zu, expected %zu", name, text.c_str(), size, r, e);
    if (o[r] != 0) fail("%s of %s into %zu: not terminated", name, text.c_str(), size);
    for (size_t k = 0; k < e; k++) if (o[k] != (*want)[k]) fail("%s of %s into %zu: element %zu is 0x%x, expected 0x%x", name, text.c_str(), size, k, (u32)o[k], (u32)(*want)[k]);
    size_t l = len(i); if (l != full) fail("%s_len of %s: %zu, expected %zu", name, text.c_str(), l, full);
    delete[] i; delete[] o;
}
static std::vector<char> V(const S &s) { return std::vector<char>(s.begin(), s.end()); }
int main(int c, char **v) {
    H h(c, v); if (!freopen("/dev/null", "w", stderr)) return 2;
    for (u32 p : {0u, 0x7fu, 0x80u, 0x7ffu, 0x800u, 0xd7ffu, 0xd800u, 0xdfffu, 0xe000u, 0xffffu, 0x10000u, 0x10ffffu, 0x110000u, 0x1fffffu, 0x7fffffffu, 0x80000000u, 0xffffffffu}) point(p);
    auto any = [&]() -> u32 { switch (h.below(6)) { case 0: return h.range(1, 31); case 1: return h.range(128, 0x7ff); case 2: return h.range(0x800, 0xd7ff); case 3: return h.coin() ? h.range(0xe000, 0xffff) : 0x80; case 4: return h.range(0x10000, 0x10ffff); default: return h.range(32, 127); } };
    while (h.left()) {
        for (int i = 0; i < 20; i++) { point(h.u() >> 32); point(h.below(0x120000)); }
        int n = h.below(8); std::vector<u32> cp; for (int i = 0; i < n; i++) cp.push_back(any());
        S u; std::vector<wchar_t> w, ws; S a; for (u32 x : cp) { u += enc(x); w.push_back(x); if (x > 0xffff && h.coin()) { ws.push_back(0xd800 + ((x - 0x10000) >> 10)); ws.push_back(0xdc00 + x % 1024); } else ws.push_back(x); a += esc(x); }
        auto bytes = V(u), asc = V(a); auto sz = [&](size_t full) { return h.coin() ? full + 1 : 1 + h.below(full + 3); };
        S bad; int kind = h.below(6);       // structurally corrupt UTF-8
        { S q = enc(h.coin() ? h.range(0x800, 0xd7ff) : h.coin() ? h.range(0x10000, 0x10ffff) : h.range(128, 0x7ff)); if (kind == 0) bad = u + (char)h.range(0x80, 0xbf) + u; else if (kind == 1) bad = u + q.substr(0, h.range(1, q.size() - 1)); else if (kind == 2) bad = q.substr(0, h.range(1, q.size() - 1)) + "x" + u; }
        conv<char, wchar_t>("utf8_to_wchar", utf8_to_wchar, utf8_to_wchar_len, bytes, &w, show(u), sz(w.size())); 
        if (!bad.empty()) { conv<char, wchar_t>("utf8_to_wchar", utf8_to_wchar, utf8_to_wchar_len, V(bad), nullptr, show(bad), sz(w.size() + 3)); conv<char, char>("escape_to_ascii", escape_to_ascii, escape_to_ascii_len, V(bad), nullptr, show(bad), sz(60)); }
        conv<char, char>("escape_to_ascii", escape_to_ascii, escape_to_ascii_len, bytes, &asc, show(u), sz(asc.size()));
        conv<wchar_t, char>("wchar_to_utf8", wchar_to_utf8, wchar_to_utf8_len, ws, &bytes, show(u), sz(bytes.size()));
        { auto x = ws; x.insert(x.begin() + h.below(1), h.coin() ? (wchar_t)h.range(0x110000, 0x7fffffff) : (wchar_t)-h.range(1, 0x7fffffff)); conv<wchar_t, char>("wchar_to_utf8", wchar_to_utf8, wchar_to_utf8_len, x, nullptr, "an invalid value and " + show(u), sz(bytes.size() + 2)); }
        S e, t; bool ok = true; for (u32 x : cp) { char b[16]; int m = h.below(4); S enc1 = enc(x); const char *p = x < 128 ? strchr(CT, x) : nullptr;
            if (p && h.coin()) e += S("\\") + CL[p - CT]; else if (m == 0 && x < 256) { snprintf(b, 16, h.coin() ? "\\x%02X" : "\\x%02x", x); e += b; } else if (m == 1 && x < 65536) { snprintf(b, 16, "\\u%04X", x); e += b; } else if (m == 2) { snprintf(b, 16, "\\U%08x", x); e += b; } else if (x == '\\' || (h.coin() && strchr("'\"?", (int)x) && x < 128)) e += S("\\") + (char)x; else e += enc1; t += enc1; }
        if (h.below(4) == 0) { const char *b[] = {"\\", "\\x", "\\x1", "\\u123", "\\U0001234", "\\xg1", "\\z", "\\u12G4", "\\U00110000", "\\ud800", "\\uDFFF"}; int k = h.below(11); e += b[k]; if (k > 4) e += h.coin() ? "zz" : ""; ok = false; }
        auto tv = V(t); conv<char, char>("unescape_to_utf8", unescape_to_utf8, unescape_to_utf8_len, V(e), ok ? &tv : nullptr, show(e), sz(tv.size()));
        if (!bad.empty() && bad.find('\\') == S::npos) conv<char, char>("unescape_to_utf8", unescape_to_utf8, unescape_to_utf8_len, V(bad), nullptr, show(bad), sz(60));
        // arbitrary bytes: memory safety and termination
        { S r; int m = h.below(12); for (int i = 0; i < m; i++) r += (char)(h.coin() ? h.range(1, 255) : "\\xuU\xf0\xe2\x82\xac" "a1F"[h.below(11)]); size_t s = 1 + h.below(14); char *i = new char[r.size() + 1]; memcpy(i, r.c_str(), r.size() + 1); char *o = new char[s]; wchar_t *wo = new wchar_t[s];
          for (auto f : {escape_to_ascii, unescape_to_utf8}) { size_t k = f(i, o, s); if (k >= s || o[k]) fail("conversion of %s into %zu: length %zu", show(r).c_str(), s, k); } size_t k = utf8_to_wchar(i, wo, s); if (k >= s || wo[k]) fail("utf8_to_wchar of %s into %zu: length %zu", show(r).c_str(), s, k); delete[] i; delete[] o; delete[] wo; }
    }
    return h.ok();
}
