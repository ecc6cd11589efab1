/* C28: a tree (and a parser) that has been used, with success or ended by an exception at any point, behaves like a new one. */
#include "feed.h"
static int at_, stop_; static void step() { if(at_++ == stop_) throw 5; }
struct Part { int64_t v = 0; void srl_resolve(Context &c) { step(); c("x", v); step(); } };
struct Doc {
    int64_t n = 0; std::string s; Part p; std::vector<int64_t> l; std::shared_ptr<Part> a, b;
    void srl_resolve(Context &c) { step(); c("ab", n)("long name number one!", s); step(); c("q", p)("a", l); step(); c("sa", a)("sb", b); step(); }
    bool same(const Doc &o) const { return n == o.n && s == o.s && p.v == o.p.v && l == o.l && a && b && a == b && a->v == o.a->v; }
};
struct Small { int64_t n = 0; std::string t; std::shared_ptr<Part> a; void srl_resolve(Context &c) { step(); c("long name number two!", n)("ab", t); step(); c("sa", a); } bool same(const Small &o) const { return n == o.n && t == o.t && a && a->v == o.a->v; } };
static Doc first() { Doc d; d.n = 3; d.s = "a text that is longer"; d.p.v = -5; d.l = { 1, 300 }; d.a = d.b = std::make_shared<Part>(); d.a->v = 9; return d; }
static Small second() { Small d; d.n = 77; d.t = "text"; d.a = std::make_shared<Part>(); d.a->v = 11; return d; }
typedef std::vector<uint8_t> Bytes_;
/* the next operation: the result is that of a new tree */
template<class P> static void next(Tree &t, P &p, const Doc &d, const Bytes_ &stored, const Bytes_ &packed, bool shared) {
    stop_ = -1; int op = pick("next", 5); Small s = second(); if(shared) s.a = d.a;
    if(op == 0) { Bytes_ b = t.store(s, p); vf_assert(b == stored, "storing writes the object and nothing else"); vf_reach("store"); }
    if(op == 1) { Bytes_ b; t.pack(b, p, "a", s, "b", int64_t(5)); vf_assert(b == packed, "packing writes the items and nothing else"); vf_reach("pack"); }
    if(op == 2) {
        t.load_source(stored.data(), stored.size(), p); auto &r = t.root();
        vf_assert(r.num_values() == 2 && r.num_nodes() == 1 && r.unwrap_field<int64_t>(nm(3)) == 77 && r.unwrap_field<std::string>(nm(1)) == "text", "loading gives the document and nothing else");
        Bytes_ b = t.to_source(p); vf_assert(b == stored, "and writes it again"); vf_reach("load");
    }
    if(op == 3) { Small g; t.restore(g, stored.data(), stored.size(), p); vf_assert(g.same(s), "restoring gives the object"); vf_reach("restore"); }
    if(op == 4) { t.load_object(s); vf_assert(t.root().num_values() == 2 && t.root().num_nodes() == 1, "loading an object gives its members and nothing else"); Bytes_ b = t.to_source(p); vf_assert(b == stored, "and writes them"); vf_reach("object"); }
}
template<class P> struct Env { Doc d = first(); Bytes_ doc, stored, packed; Env(bool shared) {
    stop_ = -1; at_ = 0; Small s = second(); if(shared) s.a = d.a; { Tree t; P p; doc = t.store(d, p); } { Tree t; P p; stored = t.store(s, p); } { Tree t; P p; t.pack(packed, p, "a", s, "b", int64_t(5)); } } };
/* writing, left by an exception at any point */
template<class P> static void after_write() {
    collide = false; bool shared = pick("shared", 2); Env<P> e(shared); Tree t; P p; Bytes_ b; int op = pick("operation", 4); stop_ = pick("stops at", 16) - 1; at_ = 0; bool thrown = false; int64_t n = 5;
    try { if(op == 0) t.store(e.d, b, p); if(op == 1) t.pack(b, p, "a", n, "b", e.d, "c", e.d); if(op == 2) t.load_object(e.d); if(op == 3) { t.root().insert("a", n, "b", e.d); t.to_source(b, p); t.clear(); } } catch(int) { thrown = true; }
    if(thrown) vf_reach("stopped"); else vf_reach("completed");
    if(op == 3 && thrown) t.clear();
    next(t, p, e.d, e.stored, e.packed, shared);
}
VF_ENTRY(vf_write_native) { after_write<PSrl>(); }
VF_ENTRY(vf_write_msgpack) { after_write<PMsgPack>(); }
VF_ENTRY(vf_write_json) { after_write<PJson>(); }
/* reading, the input ends at any point or the object throws */
template<class P> static void after_read(int op) {
    collide = false; Env<P> e(false); Tree t; P p; bool cut = pick("cut", 2); size_t n = e.doc.size(); stop_ = -1; at_ = 0;
    if(cut) { n = (size_t) (pick("length / 32", 8) * 32); n += (size_t) pick("length % 32", 32); vf_assume(n < e.doc.size()); } else stop_ = pick("stops at", 14) - 1;
    uint8_t *in = new uint8_t[n]; memcpy(in, e.doc.data(), n); bool thrown = false; int64_t x = 0; { Doc g; Part q;
    try { if(op == 0) t.load_source(in, n, p); if(op == 1) t.restore(g, in, n, p); if(op == 2) t.unpack(In::Source(in, n), p, "ab", x, "q", q); } catch(Srl::Exception &) { thrown = true; } catch(int) { thrown = true; }
    if(!thrown && !cut && op == 1) vf_assert(g.same(e.d), "the document is restored"); }
    delete[] in; if(thrown) vf_reach("failed"); else vf_reach("completed");
    next(t, p, e.d, e.stored, e.packed, false);
}
VF_ENTRY(vf_load_native) { after_read<PSrl>(0); }
VF_ENTRY(vf_load_msgpack) { after_read<PMsgPack>(0); }
VF_ENTRY(vf_load_json) { after_read<PJson>(0); }
VF_ENTRY(vf_restore_native) { after_read<PSrl>(1); }
VF_ENTRY(vf_restore_msgpack) { after_read<PMsgPack>(1); }
VF_ENTRY(vf_restore_json) { after_read<PJson>(1); }
VF_ENTRY(vf_unpack_native) { after_read<PSrl>(2); }
VF_ENTRY(vf_unpack_msgpack) { after_read<PMsgPack>(2); }
VF_ENTRY(vf_unpack_json) { after_read<PJson>(2); }
