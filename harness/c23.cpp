/* C23: fixed-size destinations are never overrun. Every destination is an object of exactly its size, so that a write
   outside is an obligation that fails; the converter is iconv by contract. */
#include "vf.h"
#include "vfutil.h"
#include "convert.h"
template<class C> static const Encoding enc = sizeof(C) == 1 ? Encoding::UTF8 : sizeof(C) == 2 ? Encoding::UTF16 : Encoding::UTF32;
#ifndef VF_NATIVE
static const uint8_t *text; static size_t len;
static Value any_text(uint8_t e) {
    len = vf_size("n", Max); text = vf_bytes("text", len);
    F = vf_bytes("converted", Max * 16); f_pos = 0; Src = (const char *) text; Left = len; calls = 0; opened = 0; bad = false; err = 0; max_calls = 2;
    return Value(MemBlock(text, len), (Encoding) e == Encoding::Unknown ? Type::Binary : Type::String, (Encoding) e);
}
/* ---- character arrays ---- */
template<class C, size_t N> static void array(uint8_t e) {
    typedef C A[N]; Value v = any_text(e); A &a = *(A *) vf_bytes("destination", sizeof(A)); bool ok = true, same = (Encoding) e == enc<C>;
    try { v.paste(a); } catch(Srl::Exception &) { ok = false; }
    size_t n = same ? len : f_pos; const uint8_t *w = same ? text : F;
    if(!same && e == 0 && len) { vf_assert(!ok, "text of unknown encoding is rejected"); vf_reach("rejected"); return; }
    if(!same && bad) { vf_assert(!ok, "text that cannot be converted is rejected"); return; }
    bool fits = n <= (N - 1) * sizeof(C);
    if(n % sizeof(C) == 0) vf_assert(ok == fits, "restored when it fits, rejected when it does not"); else if(!fits) vf_assert(!ok, "rejected when it does not fit");
    if(!ok) { vf_reach("rejected"); return; }
    size_t k = n / sizeof(C); vf_assert(k < N && a[k] == 0, "terminated"); if constexpr(N > 1) vf_reach("restored");
    size_t i = vf_size("i", (N - 1) * sizeof(C)); vf_assume(i < k * sizeof(C)); vf_assert(((uint8_t *) &a)[i] == w[i], "exactly the text");
}
template<class C> static void arrays(uint8_t e) { switch(vf_concrete(vf_u8("size") & 3)) { case 0: array<C, 1>(e); break; case 1: array<C, 2>(e); break; case 2: array<C, 5>(e); break; default: array<C, 64>(e); } }
VF_ENTRY(vf_array_8_unknown) { arrays<char>(0); }
VF_ENTRY(vf_array_8_8) { arrays<char>(1); }
VF_ENTRY(vf_array_8_16) { arrays<char>(2); }
VF_ENTRY(vf_array_8_32) { arrays<char>(3); }
VF_ENTRY(vf_array_16_unknown) { arrays<char16_t>(0); }
VF_ENTRY(vf_array_16_8) { arrays<char16_t>(1); }
VF_ENTRY(vf_array_16_16) { arrays<char16_t>(2); }
VF_ENTRY(vf_array_16_32) { arrays<char16_t>(3); }
VF_ENTRY(vf_array_32_unknown) { arrays<char32_t>(0); }
VF_ENTRY(vf_array_32_8) { arrays<char32_t>(1); }
VF_ENTRY(vf_array_32_16) { arrays<char32_t>(2); }
VF_ENTRY(vf_array_32_32) { arrays<char32_t>(3); }
VF_ENTRY(vf_array_wide) { arrays<wchar_t>(1); }
/* ---- single characters ---- */
template<class C> static void single(uint8_t e) {
    Value v = any_text(e); C &c = *(C *) vf_bytes("destination", sizeof(C)); bool ok = true, same = (Encoding) e == enc<C>;
    try { v.paste(c); } catch(Srl::Exception &) { ok = false; }
    size_t n = same ? len : f_pos; const uint8_t *w = same ? text : F;
    if(!same && ((e == 0 && len) || bad)) { vf_assert(!ok, "text that cannot be converted is rejected"); return; }
    vf_assert(ok == (n == sizeof(C)), "restored when it is one character, rejected when it is not");
    if(!ok) { vf_reach("rejected"); return; }
    vf_reach("restored"); vf_assert(memcmp(&c, w, sizeof(C)) == 0, "exactly the character");
}
VF_ENTRY(vf_char_8) { single<char>(1); }
VF_ENTRY(vf_char_16) { single<char16_t>(2); }
VF_ENTRY(vf_char_32) { single<char32_t>(3); }
VF_ENTRY(vf_char_8_16) { single<char>(2); }
VF_ENTRY(vf_char_16_8) { single<char16_t>(1); }
VF_ENTRY(vf_char_32_16) { single<char32_t>(2); }
#endif
/* ---- numbers are no text ---- */
template<class T> static void number(const Value &v) { T &d = *(T *) vf_bytes("destination", sizeof(T)); uint8_t old[sizeof(T)]; memcpy(old, &d, sizeof(T)); bool ok = true; try { v.paste(d); } catch(Srl::Exception &) { ok = false; } vf_assert(!ok && memcmp(old, &d, sizeof(T)) == 0, "a number is rejected"); }
typedef char A8[8]; typedef char16_t A16[4]; typedef char32_t A32[2];
VF_ENTRY(vf_numbers) {
    uint64_t x = vf_u64("x"); uint8_t t = vf_u8("type"); Value v = t == 0 ? Value((int8_t) x) : t == 1 ? Value(x) : t == 2 ? Value((int64_t) x) : t == 3 ? Value((bool) (x & 1)) : t == 4 ? Value(vf_f64("d")) : t == 5 ? Value(vf_f32("f")) : Value(Type::Null);
    switch(vf_concrete(vf_u8("destination kind") % 5)) { case 0: number<A8>(v); break; case 1: number<A16>(v); break; case 2: number<A32>(v); break; case 3: number<char>(v); break; default: number<char32_t>(v); }
    vf_reach("rejected");
}
/* ---- the memory the application provides for binary data ---- */
static const size_t Big = (size_t) 1 << 30;
VF_ENTRY(vf_bits_binary) {
    size_t n = vf_size("n", Big), asked = 0; int times = 0; const uint8_t *p = vf_bytes("data", n); uint8_t *dst = nullptr; bool null = vf_bool("null"), none = vf_bool("no function"), ok = true;
    std::function<uint8_t *(size_t)> fn = [&](size_t sz) { times++; asked = sz; if(null) return (uint8_t *) nullptr; return dst = vf_bytes("destination", sz); };
    BitWrap w(none ? std::function<uint8_t *(size_t)>() : fn);
    try { Value(MemBlock(p, n), Type::Binary).paste(w); } catch(Srl::Exception &) { ok = false; }
    if(none) { vf_assert(!ok, "without memory it is rejected"); return; }
    vf_assert(times == 1 && asked == n, "memory of exactly the size of the data is asked for");
    if(null) { vf_assert(ok == (n == 0), "without memory it is rejected"); return; }
    vf_assert(ok, "restored"); vf_reach("restored"); size_t i = vf_size("i", Big); vf_assume(i < n); vf_assert(dst[i] == p[i], "exactly the data");
}
/* base64 text is decoded into memory of exactly the decoded size */
VF_ENTRY(vf_bits_text) {
    size_t n = vf_size("n", Big), asked = 0; int times = 0; const uint8_t *p = vf_bytes("text", n); bool null = vf_bool("null"), ok = true;
    BitWrap w([&](size_t sz) { times++; asked = sz; return null ? (uint8_t *) nullptr : vf_bytes("destination", sz); });
    try { Value(MemBlock(p, n), Type::String, Encoding::UTF8).paste(w); } catch(Srl::Exception &) { ok = false; }
    size_t size = n / 4 * 3; if(n % 4 == 0 && n) size -= (p[n - 1] == '=') + (p[n - 2] == '=');
    if(ok) { vf_assert(n % 4 == 0 && times == 1 && asked == size, "memory of exactly the size of the decoded data is asked for"); vf_assert(!null || asked == 0, "without memory it is rejected"); vf_reach("restored"); } else vf_reach("rejected");
}
template<class T> static void vec() {
    size_t n = vf_size("n", Big), old = vf_size("old", 8); const uint8_t *p = vf_bytes("data", n); std::vector<T> v(old); bool ok = true; VecWrap<T> w(v);
    try { Value(MemBlock(p, n), Type::Binary).paste(w); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (n % sizeof(T) == 0), "restored when it is a whole number of elements, rejected when it is not");
    if(!ok) { if constexpr(sizeof(T) > 1) vf_reach("rejected"); vf_assert(v.size() == old, "the vector is kept"); return; }
    vf_assert(v.size() == n / sizeof(T) && w.bitwrap.data.size == n && w.bitwrap.data.ptr == (uint8_t *) v.data(), "as many elements"); vf_reach("restored");
    size_t i = vf_size("i", Big); vf_assume(i < n); vf_assert(((uint8_t *) v.data())[i] == p[i], "exactly the data");
}
VF_ENTRY(vf_vec_8) { vec<uint8_t>(); }
VF_ENTRY(vf_vec_16) { vec<int16_t>(); }
VF_ENTRY(vf_vec_32) { vec<float>(); }
VF_ENTRY(vf_vec_64) { vec<uint64_t>(); }
VF_ENTRY(vf_bytes_binary) {
    size_t n = vf_size("n", Big); const uint8_t *p = vf_bytes("data", n); Bytes b(std::vector<uint8_t>(3)); Value(MemBlock(p, n), Type::Binary).paste(b); auto v = std::move(b).extract();
    vf_assert(v.size() == n, "as many bytes"); vf_reach("restored"); size_t i = vf_size("i", Big); vf_assume(i < n); vf_assert(v[i] == p[i], "exactly the data");
}
/* ---- storing a character array reads only inside of it ---- */
template<class C, size_t N> static void stored() {
    typedef C A[N]; const A &a = *(const A *) vf_bytes("source", sizeof(A)); auto p = Switch<A>::Wrap(a);
    size_t n = 0; while(n < N - 1 && a[n]) n++;
    vf_assert(p.first == enc<C> && p.second.size == n * sizeof(C) && (n == 0 || p.second.ptr == (const uint8_t *) a), "the text up to its end"); if constexpr(N > 1) vf_reach("text");
}
VF_ENTRY(vf_stored) { switch(vf_concrete(vf_u8("kind") % 6)) { case 0: stored<char, 1>(); break; case 1: stored<char, 2>(); break; case 2: stored<char, 9>(); break; case 3: stored<char16_t, 5>(); break; case 4: stored<char32_t, 4>(); break; default: stored<char32_t, 1>(); } }
/* ---- null strings and single characters of the caller ---- */
VF_ENTRY(vf_null_data) { vf_reach("thrown"); BitWrap w(nullptr, vf_size("n", Big) + 1); bool ok = true; Tree t; try { t.root().insert("a", w); } catch(Srl::Exception &) { ok = false; } vf_assert(!ok, "no data is rejected"); }
/* ---- arrays of other elements: restored when there are exactly as many, rejected otherwise ---- */
#include "feed.h"
struct P { int64_t x = 0; void srl_resolve(Context &c) { c(nm(0), x); } };
static void set(P &p, int64_t v) { p.x = v; } static int64_t get(const P &p) { return p.x; } static void set(int64_t &p, int64_t v) { p = v; } static int64_t get(int64_t p) { return p; }
static void set(int64_t (&p)[2], int64_t v) { p[0] = v; p[1] = ~v; } static int64_t get(const int64_t (&p)[2]) { return p[1] == ~p[0] ? p[0] : 0; }
static void item(Feed &f, P *, int64_t v) { f.open(); f.num(0, (uint64_t) v); f.end(); } static void item(Feed &f, int64_t *, int64_t v) { f.num(-1, (uint64_t) v); }
static void item(Feed &f, int64_t (*)[2], int64_t v) { f.open(-1, Type::Array); f.num(-1, (uint64_t) v); f.num(-1, (uint64_t) ~v); f.end(); }
template<class T, size_t N, bool lazy> static void elements() {
    collide = false; typedef T A[N]; int n = pick("elements", N + 3), shape = pick("scope type", 2); int64_t v[N + 3], z = 0; Feed f; f.open(); f.open(1, shape ? Type::Array : Type::Object);
    for(int i = 0; i < n; i++) { v[i] = (int64_t) vf_u64("element"); item(f, (T *) nullptr, v[i]); } f.end(); f.num(2, 42); f.end();
    A &a = *(A *) vf_bytes("destination", sizeof(A)); bool ok = true; for(auto &e : a) set(e, 5);
    { Tree t; if(lazy) t.unpack(nothing(), f); else t.load_source(nothing(), f); try { t.root().paste_field(nm(1), a); } catch(Srl::Exception &) { ok = false; }
      t.root().paste_field(nm(2), z); vf_assert(z == 42, "the member behind it"); }
    vf_assert(ok == (n == (int) N), "restored when there are as many elements, rejected otherwise"); if(!ok) { vf_reach("rejected"); return; }
    for(size_t i = 0; i < N; i++) vf_assert(get(a[i]) == v[i], "every element in its place"); vf_reach("restored");
}
VF_ENTRY(vf_elements_numbers_lazy) { elements<int64_t, 3, true>(); }
VF_ENTRY(vf_elements_numbers_parsed) { elements<int64_t, 3, false>(); }
VF_ENTRY(vf_elements_one) { elements<int64_t, 1, true>(); }
VF_ENTRY(vf_elements_classes_lazy) { elements<P, 2, true>(); }
VF_ENTRY(vf_elements_classes_parsed) { elements<P, 2, false>(); }
VF_ENTRY(vf_elements_nested_lazy) { elements<int64_t[2], 2, true>(); }
VF_ENTRY(vf_elements_nested_parsed) { elements<int64_t[2], 2, false>(); }
