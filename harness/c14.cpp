/* C14: JSON strings and names are escaped so that they read back unchanged. */
#include "vf.h"
#include "vfutil.h"
#include <iconv.h>
#include <cerrno>
#ifndef VF_L
#define VF_L 2
#endif
/* ---- RFC 8259, section 7: one character of a string literal ---- */
static int hex(uint8_t c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static size_t put8(uint8_t *o, uint32_t c) {
    if(c < 0x80) { o[0] = (uint8_t) c; return 1; }
    if(c < 0x800) { o[0] = (uint8_t)(0xC0 | c >> 6); o[1] = (uint8_t)(0x80 | (c & 63)); return 2; }
    if(c < 0x10000) { o[0] = (uint8_t)(0xE0 | c >> 12); o[1] = (uint8_t)(0x80 | (c >> 6 & 63)); o[2] = (uint8_t)(0x80 | (c & 63)); return 3; }
    o[0] = (uint8_t)(0xF0 | c >> 18); o[1] = (uint8_t)(0x80 | (c >> 12 & 63)); o[2] = (uint8_t)(0x80 | (c >> 6 & 63)); o[3] = (uint8_t)(0x80 | (c & 63)); return 4;
}
static uint8_t shortform(uint8_t c) {
    return c == '"' ? '"' : c == '\\' ? '\\' : c == '/' ? '/' : c == 'b' ? '\b' : c == 'f' ? '\f' : c == 'n' ? '\n' : c == 'r' ? '\r' : c == 't' ? '\t' : 0;
}
/* decodes the literal behind the opening quote; false: not a JSON string literal; used: including the closing quote */
static bool literal(const uint8_t *p, size_t n, uint8_t *out, size_t &len, size_t &used) {
    len = 0; size_t i = 0;
    while(true) {
        if(i >= n) return false;
        uint8_t c = p[i];
        if(c == '"') { used = i + 1; return true; }
        if(c < 0x20) return false;
        if(c != '\\') { out[len++] = c; i++; continue; }
        if(i + 1 >= n) return false;
        uint8_t e = p[i + 1];
        if(e != 'u') { uint8_t s = shortform(e); if(!s) return false; out[len++] = s; i += 2; continue; }
        if(i + 5 >= n) return false;
        uint32_t u = 0;
        for(int k = 0; k < 4; k++) { int h = hex(p[i + 2 + k]); if(h < 0) return false; u = u * 16 + (uint32_t) h; }
        i += 6;
        if(u >= 0xD800 && u < 0xE000) return false; /* not needed for what is written */
        len += put8(out + len, u);
    }
}
/* ---- iconv by contract: UTF-16LE to UTF-8 ---- */
#ifndef VF_NATIVE
static int err;
extern "C" int *stub_errno() { return &err; }
extern "C" iconv_t stub_open(const char *to, const char *from) { vf_assert(memcmp(to, "UTF-8", 6) == 0 && memcmp(from, "UTF-16LE", 9) == 0, "from UTF-16 to UTF-8"); return (iconv_t) vf_bytes("desc", 8); }
extern "C" int stub_close(iconv_t) { return 0; }
extern "C" size_t stub_iconv(iconv_t, char **in, size_t *inl, char **out, size_t *outl) {
    while(*inl > 0) {
        if(*inl < 2) { err = EINVAL; return (size_t) -1; }
        const uint8_t *p = (const uint8_t *) *in; uint32_t c = p[0] | (uint32_t) p[1] << 8; size_t k = 2;
        if((c & 0xFC00) == 0xD800) {
            if(*inl < 4) { err = EINVAL; return (size_t) -1; }
            uint32_t l = p[2] | (uint32_t) p[3] << 8; if((l & 0xFC00) != 0xDC00) { err = EILSEQ; return (size_t) -1; }
            c = 0x10000 + ((c & 0x3FF) << 10 | (l & 0x3FF)); k = 4;
        } else if((c & 0xFC00) == 0xDC00) { err = EILSEQ; return (size_t) -1; }
        uint8_t b[4]; size_t m = put8(b, c); if(*outl < m) { err = E2BIG; return (size_t) -1; }
        memcpy(*out, b, m); *in += k; *inl -= k; *out += m; *outl -= m;
    }
    return 0;
}
#endif
/* ---- writing ---- */
static uint8_t W[32], S[8]; static size_t SN;
static void string(size_t n) { SN = n; uint8_t *b = vf_bytes("string", n); memcpy(S, b, n); }
static size_t open_doc(PJson &p, Buf &b, bool name) {
    MemBlock none; const uint8_t v = 'v';
    p.write(Value(name ? Type::Object : Type::Array), none, b.out);
    if(name) p.write(Value(MemBlock(&v, 1), Encoding::UTF8), MemBlock(S, SN), b.out);
    else p.write(Value(MemBlock(S, SN), Encoding::UTF8), none, b.out);
    p.write(Value(Type::Scope_End), none, b.out); b.flush(); return b.size();
}
template<size_t n, bool name> static void writes() {
    string(n); PJson p; Buf b; size_t z = open_doc(p, b, name); const uint8_t *o = b.data();
    uint8_t got[64]; size_t len = 0, used = 0;
    vf_assert(z >= 4 && o[0] == (name ? '{' : '[') && o[1] == '"', "the literal starts with a quote");
    vf_assert(literal(o + 2, z - 2, got, len, used), "a valid string literal");
    vf_assert(len == n, "the literal denotes the string"); for(size_t i = 0; i < n; i++) vf_assert(got[i] == S[i], "the literal denotes the string");
    const char *tail = name ? ":\"v\"}" : "]"; size_t k = name ? 5 : 1;
    vf_assert(z == 2 + used + k && memcmp(o + 2 + used, tail, k) == 0, "nothing breaks out of the literal"); vf_reach("written");
}
VF_ENTRY(vf_write_value0) { writes<0, false>(); }
VF_ENTRY(vf_write_value1) { writes<1, false>(); }
VF_ENTRY(vf_write_name1) { writes<1, true>(); }
VF_ENTRY(vf_write_value2) { writes<2, false>(); }
VF_ENTRY(vf_write_name2) { writes<2, true>(); }
/* ---- reading: literals of short escapes and plain characters ---- */
static void reads(const uint8_t *t, size_t n, const uint8_t *want, size_t len, bool name) {
    uint8_t d[40]; size_t z = 0; d[z++] = name ? '{' : '['; d[z++] = '"'; memcpy(d + z, t, n); z += n;
    const char *tail = name ? "\":true}" : "\"]"; size_t k = name ? 7 : 2; memcpy(d + z, tail, k); z += k;
    PJson p; Rd r(d, z);
    vf_assert(p.read(r.in).second.type() == (name ? Type::Object : Type::Array), "the scope is read");
    auto e = p.read(r.in);
    vf_assert(e.second.type() == (name ? Type::Bool : Type::String), "one element");
    const uint8_t *q = name ? e.first.ptr : e.second.data(); size_t m = name ? e.first.size : e.second.size();
    vf_assert(m == len, "the characters denoted"); for(size_t i = 0; i < len; i++) vf_assert(q[i] == want[i], "the characters denoted");
    vf_assert(p.read(r.in).second.type() == Type::Scope_End && r.used() == z, "the literal ends at its quote"); vf_reach("read");
}
template<size_t L, bool name> static void plain() {
    uint8_t *t = vf_bytes("text", L), want[8], buf[L + 1]; size_t len = 0, used = 0;
    for(size_t i = 0; i < L; i++) { vf_assume(!(t[i] == 'u' && i > 0 && t[i - 1] == '\\')); buf[i] = t[i]; } buf[L] = '"';
    vf_assume(literal(buf, L + 1, want, len, used) && used == L + 1);
    reads(t, L, want, len, name);
}
VF_ENTRY(vf_read_plain1) { plain<1, false>(); }
VF_ENTRY(vf_read_plain2) { plain<2, false>(); }
VF_ENTRY(vf_read_plain3) { plain<3, false>(); }
VF_ENTRY(vf_read_plain4) { plain<4, false>(); }
VF_ENTRY(vf_read_plain5) { plain<5, false>(); }
VF_ENTRY(vf_read_name3) { plain<3, true>(); }
/* four-digit escapes: every basic character, every pair of surrogates, with neighbours */
static uint32_t dig(uint8_t c) { return (c & 15u) + 9u * (c >> 6); }
static bool isdig(uint8_t c) { return ((uint8_t)(c - '0') < 10) | ((uint8_t)((c | 32) - 'a') < 6); }
static void digits(uint8_t *t, const char *name) {
    uint8_t *d = vf_bytes(name, 4); t[0] = '\\'; t[1] = 'u';
    for(int i = 0; i < 4; i++) { vf_assume(isdig(d[i])); t[2 + i] = d[i]; }
}
static uint32_t unit(const uint8_t *t) { uint32_t u = 0; for(int i = 0; i < 4; i++) u = u << 4 | dig(t[2 + i]); return u; }
template<bool name> static void basic() {
    uint8_t t[8], want[8]; t[0] = 'x'; digits(t + 1, "digits"); t[7] = 'y';
    uint32_t u = unit(t + 1); vf_assume((u & 0xF800) != 0xD800);
    want[0] = 'x'; size_t k = 1 + put8(want + 1, u); want[k++] = 'y'; reads(t, 8, want, k, name);
}
VF_ENTRY(vf_read_unicode) { basic<false>(); }
VF_ENTRY(vf_read_unicode_name) { basic<true>(); }
VF_ENTRY(vf_read_unicode2) {
    uint8_t t[12], want[8]; digits(t, "first"); digits(t + 6, "second"); for(int i = 0; i < 4; i++) vf_assume(t[8 + i] >= (i < 2 ? 97 : 48) && t[8 + i] <= (i < 2 ? 102 : 57));
    uint32_t u = unit(t), v = unit(t + 6); vf_assume((u & 0xF800) != 0xD800 && (v & 0xF800) != 0xD800);
    size_t k = put8(want, u); k += put8(want + k, v); reads(t, 12, want, k, false);
}
VF_ENTRY(vf_read_pair) {
    uint8_t t[13], want[8]; digits(t, "high"); digits(t + 6, "low"); t[12] = 'y';
    uint32_t u = unit(t), v = unit(t + 6); vf_assume((u & 0xFC00) == 0xD800 && (v & 0xFC00) == 0xDC00);
    size_t k = put8(want, 0x10000 + ((u & 0x3FF) << 10 | (v & 0x3FF))); want[k++] = 'y'; reads(t, 13, want, k, false);
}
/* longer literals: an escape anywhere among other characters (the buffer grows on the way) */
VF_ENTRY(vf_read_long) {
    const size_t L = 26; uint8_t t[L], want[L]; size_t at = vf_size("at", L - 2); at = (size_t) vf_concrete(at);
    for(size_t i = 0; i < L; i++) t[i] = (uint8_t)('a' + i);
    uint8_t e = vf_u8("escape"); vf_assume(shortform(e) != 0); t[at] = '\\'; t[at + 1] = e;
    size_t k = 0; for(size_t i = 0; i < L; i++) { if(i == at) { want[k++] = shortform(e); i++; } else want[k++] = t[i]; }
    reads(t, L, want, k, false);
}
VF_ENTRY(vf_read_long_unicode) {
    const size_t L = 30; uint8_t t[L], want[L]; size_t at = vf_size("at", L - 6); at = (size_t) vf_concrete(at);
    for(size_t i = 0; i < L; i++) t[i] = (uint8_t)('a' + i % 26);
    uint8_t c[6]; memcpy(c, "\\u20aC", 6); memcpy(t + at, c, 6);
    size_t k = 0; for(size_t i = 0; i < L; i++) { if(i == at) { k += put8(want + k, 0x20AC); i += 5; } else want[k++] = t[i]; }
    reads(t, L, want, k, false);
}
VF_ENTRY(vf_write_long) {
    const size_t n = 20; SN = n; size_t at = vf_size("at", n - 1); at = (size_t) vf_concrete(at);
    for(size_t i = 0; i < n; i++) W[i] = (uint8_t)('a' + i); W[at] = vf_u8("c");
    MemBlock none; PJson p; Buf b; bool obj = false;
    p.write(Value(Type::Array), none, b.out); p.write(Value(MemBlock(W, n), Encoding::UTF8), none, b.out); p.write(Value(Type::Scope_End), none, b.out); b.flush();
    uint8_t got[64]; size_t len = 0, used = 0, z = b.size(); const uint8_t *o = b.data(); (void) obj;
    vf_assert(z > 3 && literal(o + 2, z - 2, got, len, used) && z == 3 + used && len == n, "a valid string literal that denotes the string");
    for(size_t i = 0; i < n; i++) vf_assert(got[i] == W[i], "the literal denotes the string"); vf_reach("written");
}
/* natively: long texts through writer and reader */
#ifdef VF_NATIVE
VF_ENTRY(vf_native_roundtrip) {
    std::string s[2]; MemBlock none;
    for(auto &x : s) { size_t n = vf_size("n", 400); for(size_t i = 0; i < n; i++) { uint8_t c = vf_u8("c"); x += (char)(vf_bool("special") ? "\"\\/\b\f\n\r\t\0\x1f\x7fu'"[c % 13] : (char) c); } }
    bool c = vf_bool("compact"); PJson p(c); Buf b; MemBlock nm((const uint8_t *) s[0].data(), s[0].size()), v((const uint8_t *) s[1].data(), s[1].size());
    p.write(Value(Type::Object), none, b.out); p.write(Value(v, Encoding::UTF8), nm, b.out); p.write(Value(Type::Scope_End), none, b.out); b.flush();
    PJson q; Rd r(b.data(), b.size()); q.read(r.in); auto e = q.read(r.in);
    vf_assert(e.first.size == nm.size && memcmp(e.first.ptr, nm.ptr, nm.size) == 0, "the name reads back");
    vf_assert(e.second.type() == Type::String && e.second.size() == v.size && memcmp(e.second.data(), v.ptr, v.size) == 0, "the string reads back");
    vf_assert(q.read(r.in).second.type() == Type::Scope_End && r.used() == b.size(), "the literal ends at its quote");
}
#else
VF_ENTRY(vf_native_roundtrip) { vf_assert(shortform('n') == '\n', "the escape table is standard"); vf_reach("only run natively"); }
#endif
/* the escape may be the last thing in the text, and digits may be cut off */
VF_ENTRY(vf_read_cut) {
    uint8_t d[10] = { '[', '"' }; digits(d + 2, "digits"); d[8] = '"'; d[9] = ']'; size_t n = 2 + vf_size("size", 7); n = (size_t) vf_concrete(n);
    uint8_t *x = vf_bytes("text", n); for(size_t i = 0; i < n; i++) vf_assume(x[i] == d[i]);
    PJson p; Rd r(x, n); p.read(r.in); bool ok = true;
    try { p.read(r.in); } catch(Srl::Exception &) { ok = false; }
    uint32_t u = unit(d + 2);
    vf_assert(ok == (n > 8 && (u & 0xF800) != 0xD800), "an incomplete literal is rejected"); vf_reach("done");
}
