/* names used by the harnesses of the document tree: short, prefix of another, empty, and too long to be stored locally;
   the tree only compares names and hashes them, the hash is any function (contract: here one without and one with collisions) */
#ifndef NAMES_H
#define NAMES_H
#include "vf.h"
#include "vfutil.h"
static const char *const Alpha[] = { "a", "ab", "long name number one!", "long name number two!", "key", "value", "first", "second", "srl_type_id" };
static const int NA = 4;
static String nm(int i) { return String(MemBlock((const uint8_t *) Alpha[i], strlen(Alpha[i])), Encoding::UTF8); }
static int pick(const char *w, int n = NA) { uint8_t i = vf_u8(w); vf_assume(i < n); return (int) vf_concrete(i); }
static bool is_name(const String &s, int i) { size_t n = strlen(Alpha[i]); return s.size() == n && memcmp(s.data(), Alpha[i], n) == 0; }
static bool collide;
extern "C" uint64_t stub_hash(const uint8_t *p, size_t n) { if(collide) return 7; uint64_t h = n; for(size_t i = 0; i < n; i++) h = h * 31 + p[i]; return h; }
/* iconv by contract, for characters below 128 */
#if !defined(VF_NATIVE) && !defined(ICONV_CONTRACT_H)
#include <iconv.h>
#include <cerrno>
static int ic_err; static size_t ic_from, ic_to;
static size_t ic_unit(const char *s) { return s[4] == '8' ? 1 : s[4] == '1' ? 2 : 4; }
extern "C" int *stub_errno() { return &ic_err; }
extern "C" iconv_t stub_open(const char *to, const char *from) { ic_from = ic_unit(from); ic_to = ic_unit(to); static uint8_t d; return (iconv_t) &d; }
extern "C" int stub_close(iconv_t) { return 0; }
extern "C" size_t stub_iconv(iconv_t, char **in, size_t *inl, char **out, size_t *outl) {
    while(*inl > 0) {
        if(*inl < ic_from) { ic_err = EINVAL; return (size_t) -1; }
        if(*outl < ic_to) { ic_err = E2BIG; return (size_t) -1; }
        uint8_t c = (uint8_t) **in; vf_assert(c < 128, "the text is ASCII");
        for(size_t i = 0; i < ic_to; i++) (*out)[i] = i ? 0 : (char) c;
        *in += ic_from; *inl -= ic_from; *out += ic_to; *outl -= ic_to;
    }
    return 0;
}
#endif
static std::vector<uint8_t> wide(const char *s, size_t unit) { std::vector<uint8_t> v; for(; *s; s++) for(size_t i = 0; i < unit; i++) v.push_back(i ? 0 : (uint8_t) *s); return v; }
#endif
