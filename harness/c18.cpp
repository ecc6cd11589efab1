/* C18: the hash map behaves as a map. Keys are arbitrary; the hash keeps only part of the key, so that different
   keys with equal hashes and different hashes in one bucket both occur. */
#include "vf.h"
#include "vfutil.h"
#include "Srl/Hash.hpp"

struct H { uint64_t operator()(const uint64_t &k) const { return k >> 4; } };
typedef HTable<uint64_t, uint32_t, H> Map;
/* reference: association list, newest last */
struct Ref {
    uint64_t k[6]; uint32_t v[6]; bool in[6]; size_t n = 0;
    int find(uint64_t key) { for(size_t i = 0; i < n; i++) if(in[i] && k[i] == key) return (int) i; return -1; }
};
template<size_t Cap, size_t Limit = 0> struct S {
    Map m { Cap }; Ref r; size_t c = 0;
    void shrink() { if(Limit && m.limit > Limit) m.limit = Limit; }   /* any limit is a state the map can be in */
    void ins(bool up) {
        uint64_t k = vf_u64("k"); uint32_t v = vf_u32("v");
        int i = r.find(k);
        auto p = up ? m.upsert(k, v) : m.insert(k, v);
        vf_assert(p.first == (i >= 0), "tells whether the key was there");
        if(i < 0) { r.k[r.n] = k; r.v[r.n] = v; r.in[r.n] = true; r.n++; c++; } else if(up) r.v[i] = v;
        vf_assert(*p.second == (i < 0 || up ? v : r.v[i]), "delivers the value of the key");
        shrink();
    }
    void rem() {
        uint64_t k = vf_u64("k"); int i = r.find(k);
        m.remove(k);
        if(i >= 0) { r.in[i] = false; c--; }
    }
    void ext() {
        uint64_t k = vf_u64("k"); int i = r.find(k);
        auto o = m.extract(k);
        vf_assert(o.has_value() == (i >= 0), "extract finds exactly the keys of the map");
        if(i >= 0) { vf_assert(*o == r.v[i], "extracted value"); r.in[i] = false; c--; }
    }
    void look() {
        uint64_t q = vf_u64("q"); int i = r.find(q);
        auto *p = m.get(q);
        vf_assert((p != nullptr) == (i >= 0), "found exactly if inserted");
        if(p && i >= 0) vf_assert(*p == r.v[i], "the value of the key");
        vf_assert(m.num_entries() == c, "number of entries");
        vf_reach("looked up");
    }
};
VF_ENTRY(vf_insert_c1) { S<1> s; s.ins(false); s.ins(false); s.ins(false); s.look(); }
VF_ENTRY(vf_insert_c2) { S<2> s; s.ins(false); s.ins(false); s.look(); }
VF_ENTRY(vf_insert_c4) { S<4> s; s.ins(false); s.ins(false); s.look(); }
VF_ENTRY(vf_grow) { S<1, 2> s; s.ins(false); s.ins(false); s.ins(false); s.look(); }
VF_ENTRY(vf_grow2) { S<1, 1> s; s.ins(false); s.ins(false); s.look(); }
VF_ENTRY(vf_upsert) { S<1> s; s.ins(true); s.ins(true); s.look(); }
VF_ENTRY(vf_upsert2) { S<2> s; s.ins(false); s.ins(true); s.look(); }
VF_ENTRY(vf_remove) { S<1> s; s.ins(false); s.ins(false); s.ins(false); s.rem(); s.look(); }
VF_ENTRY(vf_remove_reuse) { S<1> s; s.ins(false); s.ins(false); s.rem(); s.ins(false); s.look(); }
VF_ENTRY(vf_remove_grow) { S<1, 1> s; s.ins(false); s.rem(); s.ins(false); s.ins(false); s.look(); }
VF_ENTRY(vf_extract) { S<2> s; s.ins(false); s.ins(false); s.ext(); s.look(); }
VF_ENTRY(vf_clear) { S<2> s; s.ins(false); s.ins(false); s.m.clear(); s.r = Ref(); s.c = 0; if(vf_bool("more")) s.ins(false); s.look(); }
VF_ENTRY(vf_move) {
    S<2> s; s.ins(false); s.ins(false);
    Map *old = new Map(std::move(s.m)); Map t { 1 }; t.insert((uint64_t) 7, 9u); t = std::move(*old);
    delete old;                                   /* the moved-from map may go */
    s.m = std::move(t); s.look();
    vf_assert(t.num_entries() == 0 && !(t.begin() != t.end()), "the source is empty");
    t.insert((uint64_t) 5, 6u); vf_assert(*t.get(5) == 6, "and usable");
    s.ins(false); s.look();
}
/* iteration and foreach deliver every entry once */
VF_ENTRY(vf_iterate) {
    S<2> s; s.ins(false); s.ins(false); if(vf_bool("rm")) s.rem();
    uint64_t q = vf_u64("key"); int i = s.r.find(q); size_t n = 0, hits = 0;
    for(auto it = s.m.begin(); it != s.m.end(); ++it) { n++; auto kv = *it; if(kv.first == q) { hits++; vf_assert(i >= 0 && kv.second == s.r.v[i], "entry of the map"); } }
    vf_assert(n == s.c && hits == (i >= 0), "every entry once");
    n = hits = 0;
    s.m.foreach([&](const uint64_t &k, uint32_t &v) { n++; if(k == q) { hits++; vf_assert(i >= 0 && v == s.r.v[i], "entry of the map"); } });
    vf_assert(n == s.c && hits == (i >= 0), "every entry once");
    vf_reach("iterated");
}
VF_ENTRY(vf_remove_if) {
    S<1> s; s.ins(false); s.ins(false); s.ins(false);
    s.m.remove_if([](const uint64_t &k, uint32_t &) { return (k & 1) != 0; });
    for(size_t i = 0; i < s.r.n; i++) if(s.r.in[i] && (s.r.k[i] & 1)) { s.r.in[i] = false; s.c--; }
    s.look();
    s.ins(false); s.look();
}
/* values with destructors are destroyed exactly once */
static int alive;
struct D { uint32_t v; D(uint32_t v_) : v(v_) { alive++; } D(const D &d) : v(d.v) { alive++; } D(D &&d) : v(d.v) { alive++; } ~D() { alive--; } };
VF_ENTRY(vf_destroy) {
    alive = 0;
    { HTable<uint64_t, D, H> m { 1 };
      uint64_t k = vf_u64("k"), l = vf_u64("l");
      m.insert(k, 1u); m.insert(l, 2u); vf_assert(alive == 1 + (k != l), "one value per entry");
      m.upsert(k, 3u); vf_assert(alive == 1 + (k != l), "replaced, not added");
      uint8_t w = vf_u8("what"); vf_assume(w < 5);
      if(w == 0) { m.remove(l); vf_assert(alive == (k != l), "removed"); }
      else if(w == 1) { m.extract(l); vf_assert(alive == (k != l), "removed"); }
      else if(w == 2) { m.clear(); vf_assert(alive == 0, "cleared"); }
      else if(w == 3) { m.remove_if([](const uint64_t &, D &) { return true; }); vf_assert(alive == 0, "removed"); }
      else { HTable<uint64_t, D, H> n { 2 }; n.insert(k, 4u); n = std::move(m); vf_assert(alive == 1 + (k != l), "moved"); }
    }
    vf_assert(alive == 0, "nothing left"); vf_reach("destroyed");
}
