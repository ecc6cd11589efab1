/* C04: native format, names and strings. What is written is read back; the memory of a name or string is given up as
   soon as it was written. The table of names and its arena are executed, their hash is any function. */
#include "names.h"
#include "src/lib/PSrl.cpp"
static const size_t Max = (size_t) 1 << 30;
struct Text { uint8_t *p; size_t n; Text(int i) : n(i < 0 ? 0 : strlen(Alpha[i])) { p = new uint8_t[n + 1]; if(n) memcpy(p, Alpha[i], n); } ~Text() { delete[] p; } operator MemBlock() const { return MemBlock(p, n); } };
static bool is(const MemBlock &b, int i) { size_t n = i < 0 ? 0 : strlen(Alpha[i]); return b.size == n && memcmp(b.ptr, i < 0 ? "" : Alpha[i], n) == 0; }
/* ---- histories of names ---- */
struct Item { int name, kind; int64_t v; };
static void put(PSrl &w, Buf &o, const Item &e) {
    Text name(e.name);
    if(e.kind == 0) w.write(Value(e.v), name, o.out); else if(e.kind == 1) { Text s((int) (e.v & 3)); w.write(Value(s, Type::String, Encoding::UTF8), name, o.out); }
    else if(e.kind == 2) w.write(Value(Type::Object), name, o.out); else if(e.kind == 3) w.write(Value(Type::Array), name, o.out); else w.write(Value(Type::Scope_End), name, o.out);
}
static void get(PSrl &r, Lib::In &in, const Item &e, bool named) {
    auto x = r.read(in); vf_assert(e.kind == 4 || is(x.first, named ? e.name : -1), "the name it was stored under");
    if(e.kind == 0) vf_assert(TpTools::is_num(x.second.type()) && x.second.pblock().i64 == e.v, "the number"); else if(e.kind == 1) vf_assert(x.second.type() == Type::String && is(MemBlock(x.second.data(), x.second.size()), (int)(e.v & 3)), "the string");
    else vf_assert(x.second.type() == (e.kind == 2 ? Type::Object : e.kind == 3 ? Type::Array : Type::Scope_End), "the scope");
}
template<int K> static void run(PSrl &w, PSrl &r, Item (&e)[K], int k) {
    Buf o; Item open { -1, 2, 0 }; put(w, o, open); for(int i = 0; i < k; i++) put(w, o, e[i]); o.flush();
    Rd in(o.data(), o.size()); get(r, in.in, open, false);
    int depth = 0; bool obj[K + 1] = { true }; for(int i = 0; i < k; i++) { get(r, in.in, e[i], obj[depth]); if(e[i].kind == 2 || e[i].kind == 3) obj[++depth] = e[i].kind == 2; else if(e[i].kind == 4) depth--; }
    vf_assert(in.used() == o.size(), "all of it"); vf_reach("read back");
}
template<int kind> static void names() {
    collide = pick("colliding", 2); PSrl w, r; Item e[4]; for(int i = 0; i < 4; i++) e[i] = Item { pick("name", 5) - 1, kind, i + 1 };
    run(w, r, e, 4);
}
VF_ENTRY(vf_names_numbers) { names<0>(); }
VF_ENTRY(vf_names_strings) { names<1>(); }
VF_ENTRY(vf_names_scopes) {
    collide = pick("colliding", 2); PSrl w, r; Item e[5]; int depth = 0; for(int i = 0; i < 5; i++) { int k = pick("item", 5); vf_assume(k != 4 || depth > 0); e[i] = Item { k == 1 ? 1 : 0, k < 2 ? 0 : k, 5 }; depth += k == 2 || k == 3 ? 1 : k == 4 ? -1 : 0; }
    run(w, r, e, 5);
}
/* a parser is used for one document after the other */
VF_ENTRY(vf_names_again) {
    collide = pick("colliding", 2); PSrl w, r; for(int d = 0; d < 2; d++) { Item e[2]; for(Item &i : e) i = Item { pick("name", 3), 0, d }; int k = 1 + pick("items", 2); w.clear(); r.clear(); run(w, r, e, k); }
}
/* the same parser writes and reads */
VF_ENTRY(vf_names_same) {
    collide = pick("colliding", 2); PSrl p; Item e[3]; for(Item &i : e) i = Item { pick("name", 4), 0, 1 };
    Buf o; Item open { -1, 2, 0 }; put(p, o, open); for(Item &i : e) put(p, o, i); put(p, o, Item { -1, 4, 0 }); o.flush(); if(pick("cleared", 2)) p.clear();
    Rd in(o.data(), o.size()); get(p, in.in, open, false); for(Item &i : e) get(p, in.in, i, true); vf_reach("read back");
}
/* more names than one group of an index can tell, and growth of the table */
VF_ENTRY(vf_names_many) {
    collide = false; PSrl w, r; Buf o; w.write(Value(Type::Object), MemBlock(), o.out); const int N = 140; auto put = [&](int i) { uint8_t *n = new uint8_t[3] { (uint8_t)('a' + i % 26), (uint8_t)('a' + i / 26), 'x' }; w.write(Value((uint8_t) i), MemBlock(n, i % 2 ? 3 : 2), o.out); delete[] n; };
    for(int i = 0; i < N; i++) put(i); int again = N - 14 + pick("again", 14); put(again); put(0); o.flush();
    Rd in(o.data(), o.size()); r.read(in.in); auto get = [&](int i) { auto x = r.read(in.in); vf_assert(x.first.size == (i % 2 ? 3 : 2) && x.first.ptr[0] == 'a' + i % 26 && x.first.ptr[1] == 'a' + i / 26 && x.second.pblock().ui64 == (uint64_t) i, "the name it was stored under"); };
    for(int i = 0; i < N; i++) get(i); get(again); get(0); vf_assert(in.used() == o.size(), "all of it"); vf_reach("read back");
}
/* ---- names and strings of any length with any bytes ---- */
static void any_name(size_t n0, size_t n1, size_t m0, size_t m1) {
    collide = true; PSrl w, r; Buf o; w.write(Value(Type::Object), MemBlock(), o.out); size_t n = vf_size("n", n1), m = vf_size("m", m1); vf_assume(n >= n0 && m >= m0); const uint8_t *a = vf_bytes("first", n), *b = vf_bytes("second", m); size_t j = vf_size("j", Max); vf_term(j);
    uint8_t *c = vf_bytes("a", n); memcpy(c, a, n); w.write(Value((uint8_t) 1), MemBlock(c, n), o.out); vf_drop(c); w.write(Value((uint8_t) 2), MemBlock(b, m), o.out); o.flush();
    Rd in(o.data(), o.size()); r.read(in.in);
    auto x = r.read(in.in); vf_assert(x.first.size == n && x.second.pblock().ui64 == 1, "the name it was stored under"); auto y = r.read(in.in); vf_assert(y.first.size == m && y.second.pblock().ui64 == 2, "the name it was stored under");
    if(vf_bool("which")) { vf_assume(j < n); vf_assert(x.first.ptr[j] == a[j], "byte for byte"); } else { vf_assume(j < m); vf_assert(y.first.ptr[j] == b[j], "byte for byte"); }
    vf_assert(in.used() == o.size(), "all of it"); vf_reach("read back");
}
VF_ENTRY(vf_any_name_short) { any_name(0, 127, 0, 127); }
VF_ENTRY(vf_any_name_mixed) { any_name(1, 127, 128, 1 << 20); }
VF_ENTRY(vf_any_name_mixed2) { any_name(128, 1 << 20, 1, 127); }
VF_ENTRY(vf_any_name_medium) { any_name(128, (1 << 14) - 1, 128, (1 << 14) - 1); }
VF_ENTRY(vf_any_name_long) { any_name(1 << 14, 1 << 20, 1 << 14, 1 << 20); }
VF_ENTRY(vf_any_name_huge) { any_name(1 << 21, 1 << 30, 1 << 21, 1 << 30); }
template<bool object, bool binary> static void any_string() {
    collide = true; PSrl w, r; Buf o; w.write(Value(object ? Type::Object : Type::Array), MemBlock(), o.out); size_t n = vf_size("n", Max); const uint8_t *a = vf_bytes("string", n); Type t = binary ? Type::Binary : Type::String;
    w.write(Value(MemBlock(a, n), t), MemBlock((const uint8_t *) "k", 1), o.out); w.write(Value(Type::Null), MemBlock(), o.out); o.flush();
    Rd in(o.data(), o.size()); r.read(in.in); auto x = r.read(in.in); vf_assert(x.second.type() == t && x.second.size() == n && x.second.encoding() == Encoding::UTF8 && (object ? x.first.size == 1 && x.first.ptr[0] == 'k' : x.first.size == 0), "the string");
    size_t j = vf_size("j", Max); if(j < n) vf_assert(x.second.data()[j] == a[j], "byte for byte"); vf_assert(r.read(in.in).second.type() == Type::Null && in.used() == o.size(), "all of it"); vf_reach("read back");
}
VF_ENTRY(vf_string_object) { any_string<true, false>(); }
VF_ENTRY(vf_string_array) { any_string<false, false>(); }
VF_ENTRY(vf_binary_object) { any_string<true, true>(); }
VF_ENTRY(vf_binary_array) { any_string<false, true>(); }
/* ---- any input, any number of names before: an index denotes one of them or is rejected ---- */
VF_ENTRY(vf_index) {
    size_t n = vf_size("size", Max); const uint8_t *t = vf_bytes("text", n); PSrl p; p.push_scope(Type::Object); Rd r(t, n); size_t k = vf_size("names", Max);
    std::vector<MemBlock> &v = p.indexed_strings; MemBlock *tab = (MemBlock *) vf_bytes("table", k * sizeof(MemBlock));
    v._M_impl._M_start = tab; v._M_impl._M_finish = v._M_impl._M_end_of_storage = tab + k;
    vf_assume(n > 0 && (t[0] & 6) == 6);
    uint64_t x = 0; bool end = false; size_t len = 1; for(int i = 0; i < 10 && len < n && !end; i++) { uint64_t g = t[len] & 127; vf_assume(i < 9 || g < 2); x |= g << (7 * i); end = t[len] < 128; len++; } vf_assume(end || len == n);
    bool ok = true; std::pair<uint8_t, MemBlock> h; try { h = p.read_head(r.in); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (end && x < k), "an index of a name that came before, or rejected");
    if(ok) { vf_assert(h.first == t[0] && h.second.ptr == tab[x].ptr && h.second.size == tab[x].size && r.used() == len, "that name"); vf_reach("found"); } else vf_reach("rejected");
    v._M_impl._M_start = v._M_impl._M_finish = v._M_impl._M_end_of_storage = nullptr;
}
/* more than a value can describe is rejected, not cut off */
VF_ENTRY(vf_huge) {
    size_t n = vf_size("n", (size_t) 1 << 36); const uint8_t *p = vf_bytes("data", n); bool ok = true; uint8_t k = (uint8_t) vf_concrete(vf_u8("kind") & 1); size_t got = 0;
    try { if(k) { Value v(MemBlock(p, n), Type::Binary); got = v.size(); } else { String s(MemBlock(p, n), Encoding::UTF8); got = s.size(); } } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (n >> 32 == 0), "rejected when it is too large"); if(ok) { vf_assert(got == n, "all of it"); vf_reach("described"); } else vf_reach("rejected");
}
