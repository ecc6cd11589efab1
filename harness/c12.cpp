/* C12: hex text is standard and decodes to the original bytes. */
#include "vf.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
using namespace Srl;
using namespace Lib;
static const size_t MAXN = (size_t) 1 << 39;

/* ---- specification, free of branches ---- */
static uint64_t digit(uint64_t v, uint64_t, uint64_t, uint64_t) { return v < 10 ? '0' + v : 'A' + (v - 10); }
static uint64_t is_hex(uint64_t a, uint64_t b, uint64_t, uint64_t) {
    auto one = [](uint64_t c) { return (unsigned)((c >= '0') & (c <= '9')) | (unsigned)((c >= 'A') & (c <= 'F')) | (unsigned)((c >= 'a') & (c <= 'f')); };
    return one(a) & one(b);
}
static uint64_t value(uint64_t a, uint64_t b, uint64_t, uint64_t) {
    auto one = [](uint64_t c) { uint64_t lo = c >= 'a', up = (c >= 'A') & !lo; return (lo * (c - 'a' + 10) + up * (c - 'A' + 10) + (!lo & !up) * (c - '0')) & 15; };
    return one(a) << 4 | one(b);
}
static void encode(bool high) {
    size_t n = vf_size("n", MAXN);
    uint8_t *b = vf_bytes("b", n);
    size_t q = vf_u64("q");
    vf_assume(q < n);
    size_t k = high ? 2 * q : 2 * q + 1;
    uint8_t e = vf_pure(digit, high ? b[q] >> 4 : b[q] & 15, 0, 0, 0);
    vf_watch(k, e);
    auto v = Tools::bytes_to_hex(b, n);
    vf_assert(v.size() == 2 * n, "two digits per byte");
    vf_reach("encoded");
    vf_assert(v[k] == e, "every digit is the standard one");
}
VF_ENTRY(vf_encode_high) { encode(true); }
VF_ENTRY(vf_encode_low) { encode(false); }
VF_ENTRY(vf_encode_empty) {
    uint8_t b = 0;
    vf_assert(Tools::bytes_to_hex(&b, 0).size() == 0, "empty data gives empty text");
    vf_assert(Tools::hex_to_bytes(&b, 0).size() == 0, "empty text gives empty data");
}
/* whatever is accepted is valid and decoded to what it denotes; nothing outside the text is looked at */
VF_ENTRY(vf_accepted_is_valid) {
    size_t n = vf_size("n", MAXN);
    uint8_t *t = vf_bytes("t", n);
    size_t q = vf_u64("q");
    if(n % 2 == 0 && q < n / 2) vf_fact(2 * q, vf_pure(is_hex, t[2 * q], t[2 * q + 1], 0, 0));
    size_t got = 0; bool ok = true;
    try { got = Tools::hex_to_bytes(t, n).size(); } catch(Exception &) { ok = false; }
    if(!ok) { vf_reach("rejected"); return; }
    vf_reach("accepted");
    vf_assert(n % 2 == 0, "accepted text has an even length");
    vf_assert(got == n / 2, "one byte per two digits");
    if(q < n / 2) vf_assert(vf_pure(is_hex, t[2 * q], t[2 * q + 1], 0, 0), "accepted text consists of hex digits");
}
VF_ENTRY(vf_decode) {
    size_t n = 2 * vf_size("n", MAXN);
    uint8_t *t = vf_bytes("t", n);
    size_t q = vf_u64("q");
    vf_assume(q < n / 2);
    uint8_t e = vf_pure(value, t[2 * q], t[2 * q + 1], 0, 0);
    vf_watch(q, e);
    std::vector<uint8_t> v;
    try { v = Tools::hex_to_bytes(t, n); } catch(Exception &) { return; }
    vf_reach("decoded");
    vf_assert(q < v.size() && v[q] == e, "every byte is the one its digits denote");
}
static uint8_t valid_char(uint8_t raw, size_t) { uint8_t d = raw & 15; return d < 10 ? '0' + d : (raw & 16 ? 'a' : 'A') + (d - 10); }
VF_ENTRY(vf_valid_is_accepted) {
    size_t n = 2 * vf_size("n", MAXN);
    uint8_t *t = vf_map("t", n, valid_char);
    bool ok = true;
    try { Tools::hex_to_bytes(t, n); } catch(Exception &) { ok = false; }
    vf_reach("end");
    vf_assert(ok, "valid hex text is accepted");
}
/* a destination that is too small is rejected */
VF_ENTRY(vf_decode_into) {
    size_t n = vf_size("n", MAXN), d = vf_size("d", MAXN);
    uint8_t *t = vf_bytes("t", n), *dst = vf_bytes("dst", d);
    try { Tools::hex_to_bytes(dst, d, t, n); } catch(Exception &) { return; }
    vf_reach("end");
    vf_assert(d >= n / 2 && n % 2 == 0, "accepted only when the data fits");
}
