/* iconv(3) by contract, for any input and any conversion */
#ifndef ICONV_CONTRACT_H
#define ICONV_CONTRACT_H
#include <iconv.h>
#include <cerrno>
static const size_t Max = (size_t) 1 << 30;
#ifndef VF_NATIVE
static uint8_t *F; static size_t f_pos;         /* everything the converter delivers, in order */
static const char *Src; static size_t Left;     /* where the caller has to go on */
static int calls, opened, max_calls = 3; static bool bad; static int err;
extern "C" int *stub_errno() { return &err; }
extern "C" iconv_t stub_open(const char *to, const char *from) {
    vf_assert(to && from, "both encodings are known");
    if(vf_bool("unsupported")) { bad = true; err = EINVAL; return (iconv_t) -1; }
    opened++; return (iconv_t) vf_bytes("desc", 8);
}
extern "C" int stub_close(iconv_t) { opened--; return 0; }
/* contract of iconv(3): converts as far as it gets; stops at an invalid or incomplete sequence, or when the next
   character (at most 4 bytes) does not fit */
extern "C" size_t stub_iconv(iconv_t, char **in, size_t *inl, char **out, size_t *outl) {
    vf_assert(opened == 1, "an open converter is used");
    vf_assert(*in == Src && *inl == Left, "goes on where the converter stopped");
    vf_readable(*in, *inl); vf_writable(*out, *outl);
    vf_assume(calls < max_calls); calls++;
    size_t k = vf_size("consumed", Max), m = vf_size("produced", Max * 8);
    vf_assume((k <= *inl) & (m <= *outl) & (m <= 4 * k));
    memcpy(*out, F + f_pos, m); f_pos += m;
    *in += k; *inl -= k; *out += m; *outl -= m; Src = *in; Left = *inl;
    uint8_t w = vf_u8("result");
    if(w == 0) { vf_assume(*inl == 0); err = vf_u8("stale"); return vf_u8("irreversible"); }
    vf_assume(*inl > 0);
    if(w == 1) { bad = true; err = EILSEQ; } else if(w == 2) { bad = true; err = EINVAL; } else { vf_assume(*outl < 4); err = E2BIG; }
    return (size_t) -1;
}
static String input(uint8_t e) {
    size_t n = vf_size("n", Max); const uint8_t *p = vf_bytes("text", n);
    F = vf_bytes("converted", Max * 16); f_pos = 0; Src = (const char *) p; Left = n; calls = 0; opened = 0; bad = false; err = 0;
    return String(p, n, (Encoding) e);
}
#endif
#endif
