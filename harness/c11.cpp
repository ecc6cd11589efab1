/* C11: base64 text is standard and decodes to the original bytes. */
#include "vf.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
using namespace Srl;
using namespace Lib;
static const size_t MAXN = (size_t) 1 << 39;

/* ---- specification (RFC 4648, standard alphabet, padded) ---- */
static uint8_t sym(uint8_t v) {
    return v < 26 ? 'A' + v : v < 52 ? 'a' + (v - 26) : v < 62 ? '0' + (v - 52) : v == 62 ? '+' : '/';
}
static bool is_sym(uint8_t c) {
    return ((c >= 'A') & (c <= 'Z')) | ((c >= 'a') & (c <= 'z')) | ((c >= '0') & (c <= '9')) | (c == '+') | (c == '/');
}
static uint8_t val(uint8_t c) {
    uint8_t lo = c >= 'a', up = (c >= 'A') & !lo, dg = (c >= '0') & !up & !lo, pl = c == '+';
    return lo * (c - 'a' + 26) + up * (c - 'A') + dg * (c - '0' + 52) + pl * 62 + (!lo & !up & !dg & !pl) * 63;
}
static uint8_t at(const uint8_t *b, size_t n, size_t i) { return i < n ? b[i] : 0; }
/* sextet number r of the three bytes a, b, c */
static uint8_t sextet(uint8_t a, uint8_t b, uint8_t c, size_t r) {
    uint32_t w = (uint32_t) a << 16 | (uint32_t) b << 8 | c;
    return (uint8_t)(w >> (18 - 6 * r)) & 63;
}
/* character 4q+r of the encoding of b[0..n), before and after padding is put in */
static uint8_t enc_raw(const uint8_t *b, size_t n, size_t q, size_t r) {
    return vf_pure([](uint64_t a, uint64_t b, uint64_t c, uint64_t r) -> uint64_t { return sym(sextet(a, b, c, r)); }, at(b, n, 3 * q), at(b, n, 3 * q + 1), at(b, n, 3 * q + 2), r);
}
static uint8_t enc(const uint8_t *b, size_t n, size_t q, size_t r) {
    if(r == 2 && 3 * q + 1 >= n) return '=';
    if(r == 3 && 3 * q + 2 >= n) return '=';
    return enc_raw(b, n, q, r);
}

static void encode(size_t r) {
    size_t n = vf_size("n", MAXN);
    uint8_t *b = vf_bytes("b", n);
    size_t groups = (n + 2) / 3, q = vf_u64("q");
    vf_assume(q < groups);
    size_t k = 4 * q + r;
    uint8_t e = enc(b, n, q, r);
    vf_watch(k, enc_raw(b, n, q, r));
    auto v = Tools::bytes_to_base64(b, n);
    vf_assert(v.size() == 4 * groups, "length of the encoding");
    vf_reach("encoded");
    vf_assert(v[k] == e, "every character of the encoding is the standard one");
}
VF_ENTRY(vf_encode0) { encode(0); }
VF_ENTRY(vf_encode1) { encode(1); }
VF_ENTRY(vf_encode2) { encode(2); }
VF_ENTRY(vf_encode3) { encode(3); }

/* ---- decoding ---- */
static bool quad_ok(const uint8_t *t, size_t n, size_t q) {
    return vf_pure([](uint64_t c0, uint64_t c1, uint64_t c2, uint64_t c3) -> uint64_t {
        bool last = c3 >> 8; c3 &= 255;
        bool full = is_sym(c2) & is_sym(c3), one = is_sym(c2) & (c3 == '='), two = (c2 == '=') & (c3 == '=');
        return is_sym(c0) & is_sym(c1) & (full | (last & (one | two)));
    }, t[4 * q], t[4 * q + 1], t[4 * q + 2], t[4 * q + 3] | (uint64_t)(4 * q + 4 == n) << 8);
}
static size_t dec_size(const uint8_t *t, size_t n) {
    return n == 0 ? 0 : n / 4 * 3 - vf_pure([](uint64_t a, uint64_t b, uint64_t, uint64_t) -> uint64_t { return (a == '=') + (b == '='); }, t[n - 1], t[n - 2], 0, 0);
}
static uint64_t val24(uint64_t a, uint64_t b, uint64_t c, uint64_t d) {
    return (uint64_t) val(a) << 18 | (uint64_t) val(b) << 12 | (uint64_t) val(c) << 6 | val(d);
}
static uint8_t dec_byte(const uint8_t *t, size_t q, size_t r) {
    return (uint8_t)(vf_pure(val24, t[4 * q], t[4 * q + 1], t[4 * q + 2], t[4 * q + 3]) >> (16 - 8 * r));
}
/* whatever is accepted is valid base64, and no other text than the given one is looked at */
VF_ENTRY(vf_accepted_is_valid) {
    size_t n = vf_size("n", MAXN);
    uint8_t *t = vf_bytes("t", n);
    size_t q = vf_u64("q");
    if(n % 4 == 0 && q < n / 4) vf_fact(4 * q, quad_ok(t, n, q));
    size_t got = 0; bool ok = true;
    try { got = Tools::base64_to_bytes((const char *) t, n).size(); } catch(Exception &) { ok = false; }
    if(!ok) { vf_reach("rejected"); return; }
    vf_reach("accepted");
    vf_assert(n % 4 == 0, "accepted text has a length divisible by four");
    vf_assert(got == dec_size(t, n), "size of the decoded data");
    if(q < n / 4) vf_assert(quad_ok(t, n, q), "accepted text consists of valid groups");
}
static void decoded(size_t r) {
    size_t n = vf_size("n", MAXN);
    uint8_t *t = vf_bytes("t", n);
    vf_assume(n % 4 == 0 && n > 0);
    size_t q = vf_u64("q");
    vf_assume(q < n / 4);
    size_t k = 3 * q + r;
    if(r > 0) vf_assume(t[4 * q + 2] != '=');            /* the group has this byte */
    if(r > 1) vf_assume(t[4 * q + 3] != '=');
    uint8_t e = dec_byte(t, q, r);
    vf_watch(k, e);
    std::vector<uint8_t> v;
    try { v = Tools::base64_to_bytes((const char *) t, n); } catch(Exception &) { return; }
    vf_reach("decoded");
    vf_assert(k < v.size(), "every byte is delivered");
    vf_assert(v[k] == e, "every decoded byte is the one the text denotes");
}
VF_ENTRY(vf_decode0) { decoded(0); }
VF_ENTRY(vf_decode1) { decoded(1); }
VF_ENTRY(vf_decode2) { decoded(2); }
/* valid text is never rejected */
static size_t v_n, v_pad;
static uint8_t valid_char(uint8_t raw, size_t i) { return i + v_pad >= v_n ? '=' : sym(raw & 63); }
VF_ENTRY(vf_valid_is_accepted) {
    size_t n = 4 * vf_size("quads", MAXN / 4);
    v_n = n; v_pad = n ? vf_size("pad", 2) : 0;
    uint8_t *t = vf_map("t", n, valid_char);
    bool ok = true;
    try { Tools::base64_to_bytes((const char *) t, n); } catch(Exception &) { ok = false; }
    vf_reach("end");
    vf_assert(ok, "valid base64 is accepted");
}
/* a destination that is too small is rejected, a larger one is written only in its first bytes */
VF_ENTRY(vf_decode_into) {
    size_t n = vf_size("n", MAXN), d = vf_size("d", MAXN);
    uint8_t *t = vf_bytes("t", n), *dst = vf_bytes("dst", d);
    try { Tools::base64_to_bytes(dst, d, (const char *) t, n); } catch(Exception &) { return; }
    vf_reach("end");
    vf_assert(d >= dec_size(t, n), "accepted only when the data fits");
}
