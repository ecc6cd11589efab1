/* C07: parsing untrusted bytes never touches memory outside the input. The verifier checks every memory access of
   everything that runs below; what is delivered must lie in the input or in a live buffer of the parser. */
#include "vf.h"
#include "vfutil.h"

static const size_t Max = (size_t) 1 << 40;
static uint8_t *T; static size_t N;
static void text(size_t max) { N = vf_size("size", max); T = vf_bytes("text", N); }
/* data of an element: in the input, in the value itself, or in a buffer that can be read */
static void delivered(const std::pair<MemBlock, Value> &r) {
    auto &v = r.second;
    if(v.type() == Type::String || v.type() == Type::Binary) vf_readable(v.data(), v.size());
    vf_readable(r.first.ptr, r.first.size);
    vf_reach("delivered");
}
/* ---- native format: any text, any scope state, any number of names so far ---- */
/* a variable-length integer by contract (C03): any number after one to ten bytes, or rejected */
#ifndef VF_NATIVE
extern "C" uint64_t stub_varint(In &in) {
    size_t k = vf_size("groups", 10); vf_assume(k >= 1);
    in.read_block(k, [] { throw Exception("varint"); });
    if(vf_bool("overflow")) throw Exception("varint");
    return vf_u64("varint");
}
#endif
template<int d, bool object, int k> static void srl() {
    text(Max); PSrl p; Rd r(T, N);
    for(int i = 0; i < d; i++) p.push_scope((i + 1 < d ? vf_bool("outer") : object) ? Type::Object : Type::Array);
    for(int i = 0; i < k; i++) { size_t n = vf_size("len", Max); p.indexed_strings.push_back(MemBlock(vf_bytes("name", n), n)); }
    try { auto e = p.read(r.in); vf_assert(r.used() <= N, "the cursor stays inside the input"); delivered(e); } catch(Srl::Exception &) { vf_reach("rejected"); }
    vf_assert((p.scope_stack.size() > 0) == (p.scope != Type::Null) && (p.scope_stack.empty() || p.scope_stack.top() == p.scope), "the scope state stays consistent");
}
VF_ENTRY(vf_srl_top) { srl<0, false, 0>(); }
VF_ENTRY(vf_srl_array) { srl<1, false, 0>(); }
VF_ENTRY(vf_srl_array2) { srl<2, false, 0>(); }
VF_ENTRY(vf_srl_object) { srl<1, true, 0>(); }
VF_ENTRY(vf_srl_object1) { srl<1, true, 1>(); }
VF_ENTRY(vf_srl_object2) { srl<2, true, 2>(); }
/* the look-up of a name is in range for any number of names */
VF_ENTRY(vf_srl_names) {
    text(Max); PSrl p; p.push_scope(Type::Object); Rd r(T, N);
    size_t k = vf_size("names", (size_t) 1 << 30);
    p.indexed_strings.reserve(0); std::vector<MemBlock> &v = p.indexed_strings;
    v._M_impl._M_start = (MemBlock *) vf_bytes("table", k * sizeof(MemBlock)); v._M_impl._M_finish = v._M_impl._M_end_of_storage = v._M_impl._M_start + k;
    try { p.read_head(r.in); vf_reach("delivered"); } catch(Srl::Exception &) { vf_reach("rejected"); }
    v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr;
}
/* ---- MessagePack ---- */
template<int d, bool object> static void msgp() {
    text(Max); PMsgPack p; Rd r(T, N);
    for(int i = 0; i < d; i++) {
        bool o = i + 1 < d ? vf_bool("outer") : object; uint32_t n = vf_u32("elements");
        p.scope_stack.emplace(o ? Type::Object : Type::Array, n); p.scope = &p.scope_stack.top();
    }
    try { auto e = p.read(r.in); vf_assert(r.used() <= N, "the cursor stays inside the input"); delivered(e); } catch(Srl::Exception &) { vf_reach("rejected"); }
    vf_assert(p.scope == (p.scope_stack.empty() ? nullptr : &p.scope_stack.top()), "the scope state stays consistent");
}
VF_ENTRY(vf_msgp_top) { msgp<0, false>(); }
VF_ENTRY(vf_msgp_array) { msgp<1, false>(); }
VF_ENTRY(vf_msgp_object) { msgp<1, true>(); }
VF_ENTRY(vf_msgp_array2) { msgp<2, false>(); }
VF_ENTRY(vf_msgp_object2) { msgp<2, true>(); }
/* ---- JSON: every text of up to L bytes, alone and behind the beginnings of longer tokens ---- */
#ifndef VF_NATIVE
#include <iconv.h>
#include <cerrno>
static int err;
extern "C" double stub_strtod(const char *s, char **end) { size_t n = 0; while(s[n]) n++; *end = (char *) s + (vf_bool("whole") ? n : 0); return 0.5; }
extern "C" int *stub_errno() { return &err; }
extern "C" iconv_t stub_open(const char *, const char *) { return (iconv_t) vf_bytes("desc", 8); }
extern "C" int stub_close(iconv_t) { return 0; }
extern "C" size_t stub_iconv(iconv_t, char **in, size_t *inl, char **out, size_t *outl) {
    vf_readable(*in, *inl); vf_writable(*out, *outl); vf_assume(*outl >= 4); size_t m = vf_size("produced", 4);
    if(vf_bool("bad")) { err = EILSEQ; return (size_t) -1; }
    m = (size_t) vf_concrete(m); vf_assume(m >= 1); memset(*out, 'x', m); *in += *inl; *inl = 0; *out += m; *outl -= m; return 0;
}
#endif
template<int scope> static void json(const char *head, size_t h, size_t L, bool del = true) {
    size_t k = vf_size("size", L); k = (size_t) vf_concrete(k); N = h + k; T = vf_bytes("text", N);
    for(size_t i = 0; i < h; i++) vf_assume(T[i] == (uint8_t) head[i]);
    PJson p; Rd r(T, N); (void) del;
    if(scope) { p.scope_stack.push(scope == 1 ? Type::Array : Type::Object); p.scope_type = p.scope_stack.top(); }
    try { auto e = p.read(r.in); vf_assert(r.used() <= N, "the cursor stays inside the input"); delivered(e); } catch(Srl::Exception &) { vf_reach("rejected"); }
}
VF_ENTRY(vf_json_none) { json<0>("", 0, 5); }
VF_ENTRY(vf_json_array) { json<1>("", 0, 4); }
VF_ENTRY(vf_json_object) { json<2>("", 0, 5); }
VF_ENTRY(vf_json_escape) { json<1>("\"\\", 2, 3); }
VF_ENTRY(vf_json_unicode) { json<1>("\"\\u", 3, 5); }
VF_ENTRY(vf_json_surrogate) { json<1>("\"\\ud83d\\u", 9, 5); }
VF_ENTRY(vf_json_surrogate_cut) { json<1>("\"\\ud83d", 7, 3); }
VF_ENTRY(vf_json_literal) { json<1>("tru", 3, 3); }
VF_ENTRY(vf_json_number) { json<1>("-1.", 3, 3); }
VF_ENTRY(vf_json_member) { json<2>("\"a\":", 4, 4); }
VF_ENTRY(vf_json_comment) { json<1>("/*", 2, 4); }
/* a number of any length (the text for the converter is terminated) */
VF_ENTRY(vf_json_long_number) {
    size_t n = 55 + vf_size("digits", 20); n = (size_t) vf_concrete(n); uint8_t d[100]; memset(d, '1', n); d[1] = '.'; d[n] = ']'; N = n + 1;
    PJson p; p.scope_stack.push(Type::Array); p.scope_type = Type::Array; Rd r(d, N); try { auto e = p.read(r.in); delivered(e); } catch(Srl::Exception &) { vf_reach("rejected"); }
}
