/* C15: the JSON writer produces well-formed documents. Every sequence of up to K items below the root, in both layouts,
   against an independent JSON parser. */
#include "vf.h"
#include "vfutil.h"
enum Kind : uint8_t { Scalar, Str, Obj, Arr, End };
struct Ev { Kind k; bool named; uint8_t name; };
/* ---- RFC 8259 (the values used here are numbers of digits and plain strings) ---- */
static const uint8_t *p, *e; static bool bad;
static void ws() { while(p < e && (*p == ' ' || *p == '\n' || *p == '\t' || *p == '\r')) p++; }
static void need(uint8_t c) { if(p < e && *p == c) p++; else bad = true; }
static Ev got[32]; static size_t n_got;
static bool plain(uint8_t &last) { need('"'); last = 0; while(p < e && *p != '"') { if(*p < 0x20 || *p == '\\') bad = true; last = *p++; } need('"'); return !bad; }
static void value(bool named, uint8_t name) {
    ws(); if(p >= e || bad || n_got >= 30) { bad = true; return; }
    uint8_t c = *p, x;
    if(c == '"') { plain(x); got[n_got++] = { Str, named, name }; return; }
    if(c >= '1' && c <= '9') { while(p < e && *p >= '0' && *p <= '9') p++; got[n_got++] = { Scalar, named, name }; return; }
    if(c != '{' && c != '[') { bad = true; return; }
    bool obj = c == '{'; uint8_t close = obj ? '}' : ']'; p++;
    got[n_got++] = { obj ? Obj : Arr, named, name }; ws();
    if(p < e && *p == close) { p++; got[n_got++] = { End, false, 0 }; return; }
    while(!bad) {
        uint8_t nm = 0; ws();
        if(obj) { plain(nm); ws(); need(':'); }
        value(obj, nm); ws();
        if(p < e && *p == ',') { p++; continue; }
        need(close); break;
    }
    got[n_got++] = { End, false, 0 };
}
static void document(const uint8_t *d, size_t n) { p = d; e = d + n; bad = false; n_got = 0; ws(); value(false, 0); ws(); if(p != e) bad = true; }
/* ---- what is written ---- */
static Ev want[32]; static size_t n_want;
static void put(PJson &j, Buf &b, Kind k, bool in_obj) {
    uint8_t nm = (uint8_t)('a' + n_want); MemBlock name(&nm, 1), none; const uint8_t num[] = "12", str[] = "s";
    Value v = k == Scalar ? Value(MemBlock(num, 2), Type::UI8) : k == Str ? Value(MemBlock(str, 1), Encoding::UTF8) : Value(k == Obj ? Type::Object : k == Arr ? Type::Array : Type::Scope_End);
    bool named = in_obj && k != End;
    j.write(v, named || (n_want & 1) ? name : none, b.out);
    want[n_want++] = { k, named, named ? nm : (uint8_t) 0 };
}
static void check(Buf &b) {
    b.flush(); document(b.data(), b.size());
    vf_assert(!bad, "one well-formed document"); vf_assert(n_got == n_want, "every item once");
    for(size_t i = 0; i < n_want; i++) vf_assert(got[i].k == want[i].k && got[i].named == want[i].named && got[i].name == want[i].name, "the items in order, with their names");
}
static const int D = 16;
template<bool compact, Kind root> static void writes(int K) {
    PJson j(compact); Buf b; bool st[D]; int d = 0; n_want = 0;
    put(j, b, root, false); st[d++] = root == Obj;
    for(int i = 0; i < K && d > 0; i++) {
        uint8_t k = vf_u8("kind"); vf_assume(k <= End); k = (uint8_t) vf_concrete(k);
        put(j, b, (Kind) k, st[d - 1]);
        if(k == Obj || k == Arr) st[d++] = k == Obj; else if(k == End) d--;
    }
    while(d > 0) { put(j, b, End, st[d - 1]); d--; }
    check(b);
    /* the writer is ready for the next document */
    j.clear(); Buf c; n_want = 0; put(j, c, Arr, false); put(j, c, Scalar, false); put(j, c, End, false); check(c); vf_reach("written");
}
VF_ENTRY(vf_compact_object) { writes<true, Obj>(5); }
VF_ENTRY(vf_compact_array) { writes<true, Arr>(5); }
VF_ENTRY(vf_indented_object) { writes<false, Obj>(5); }
VF_ENTRY(vf_indented_array) { writes<false, Arr>(5); }
/* every type of value keeps its place: quotes around text and binary, none around literals */
template<bool compact> static void types() {
    PJson j(compact); Buf b; MemBlock none; uint8_t t = vf_u8("type"); vf_assume(TpTools::is_scalar((Type) t) | (t == (uint8_t) Type::String) | (t == (uint8_t) Type::Binary)); t = (uint8_t) vf_concrete(t);
    const uint8_t num[] = "12"; bool quoted = !TpTools::is_scalar((Type) t); n_want = 0;
    put(j, b, Arr, false);
    for(int i = 0; i < 2; i++) { j.write(Value(MemBlock(num, 2), (Type) t), none, b.out); want[n_want++] = { quoted ? Str : Scalar, false, 0 }; }
    put(j, b, End, false); check(b); vf_reach("written");
}
VF_ENTRY(vf_types_compact) { types<true>(); }
VF_ENTRY(vf_types_indented) { types<false>(); }
/* natively: long documents */
#ifdef VF_NATIVE
VF_ENTRY(vf_native_documents) {
    PJson j(vf_bool("compact")); Buf b; bool st[D]; int d = 0; n_want = 0; bool o = vf_bool("object");
    put(j, b, o ? Obj : Arr, false); st[d++] = o;
    while(d > 0 && n_want < 20) {
        uint8_t k = vf_u8("kind") % 5; if(d + n_want > 24 && k != End) k = Scalar;
        put(j, b, (Kind) k, st[d - 1]);
        if(k == Obj || k == Arr) st[d++] = k == Obj; else if(k == End) d--;
        if(d >= D - 1) break;
    }
    while(d > 0) { if(n_want >= 29) return; put(j, b, End, st[d - 1]); d--; }
    check(b);
}
#else
VF_ENTRY(vf_native_documents) { const uint8_t d[] = "[1,{\"a\":\"x\"}]"; document(d, 13); vf_assert(!bad && n_got == 6, "the parser of the harness accepts JSON"); vf_reach("only run natively"); }
#endif
