/* C26: shared objects keep their identity. */
#include "feed.h"
static int alive, made;
struct L { int64_t id = 0; std::vector<std::shared_ptr<L>> c; L() { alive++; made++; } ~L() { alive--; } L(const L &) = delete; void srl_resolve(Context &x) { x("ab", id)("a", c); } };
struct R { std::vector<std::shared_ptr<L>> s; void srl_resolve(Context &x) { x("q", s); } };
/* nodes 0, 1, 2; edges from lower to higher numbers; three root pointers */
struct Shape { int root[3], edges; };
static Shape shape(int kind) { Shape s; static const int E[] = { 0, 7, 5 }; s.edges = kind == 0 ? pick("edges", 8) : E[pick("edges", kind == 1 ? 3 : 2)]; for(auto &r : s.root) r = pick("root", 3); return s; }
static bool edge(const Shape &s, int a, int b) { return a == 0 ? s.edges & b : s.edges & 4; }   /* 0->1: 1, 0->2: 2, 1->2: 4 */
static R build(const Shape &s, const int64_t *id) {
    std::shared_ptr<L> n[3]; for(int i = 0; i < 3; i++) { n[i] = std::make_shared<L>(); n[i]->id = id[i]; }
    for(int a = 0; a < 2; a++) for(int b = a + 1; b < 3; b++) if(edge(s, a, b)) n[a]->c.push_back(n[b]);
    R r; for(int i : s.root) r.s.push_back(n[i]); return r;
}
/* the restored graph is the stored one: a one-to-one mapping of objects */
static void same(const Shape &s, const int64_t *id, const R &g, int expect_made) {
    L *n[3] = { nullptr, nullptr, nullptr }; bool ok = g.s.size() == 3; vf_assert(ok, "every pointer"); if(!ok) return;
    for(int i = 0; i < 3; i++) { ok = ok && g.s[i]; vf_assert(ok, "every pointer"); if(!ok) return; L *&m = n[s.root[i]]; if(!m) m = g.s[i].get(); vf_assert(m == g.s[i].get(), "one object for what was one object"); }
    for(int a = 0; a < 2; a++) if(n[a]) { size_t k = 0; for(int b = a + 1; b < 3; b++) if(edge(s, a, b)) { vf_assert(k < n[a]->c.size() && n[a]->c[k], "every pointer"); if(k >= n[a]->c.size()) return; L *&m = n[b]; if(!m) m = n[a]->c[k].get(); vf_assert(m == n[a]->c[k].get(), "one object for what was one object"); k++; } vf_assert(k == n[a]->c.size(), "no other pointers"); }
    int count = 0; for(int i = 0; i < 3; i++) if(n[i]) { count++; vf_assert(n[i]->id == id[i], "its contents"); for(int j = 0; j < i; j++) vf_assert(n[i] != n[j], "different objects for different objects"); }
    vf_assert(made == expect_made + count && alive == count, "each object once");
}
template<class P> static void graph(int kind, int how) {
    collide = false; Shape s = shape(kind); int64_t id[3] = { 5, 6, 300 }; std::vector<uint8_t> b; P p;
    { R r = build(s, id); Tree t; if(how & 1) { t.load_object(r); b = t.to_source(p); } else b = t.store(r, p); vf_assert(alive <= 3, "storing makes no objects"); }
    vf_assert(alive == 0, "what was stored is not kept"); made = 0;
    { R g; { Tree t; if(how & 2) { t.load_source(b.data(), b.size(), p); t.root().paste(g); } else t.restore(g, b.data(), b.size(), p); } same(s, id, g, 0); }
    vf_assert(alive == 0, "each destroyed once"); vf_reach("restored");
}
VF_ENTRY(vf_graph_stored) { graph<PSrl>(0, 0); }
VF_ENTRY(vf_graph_tree) { graph<PSrl>(0, 3); }
VF_ENTRY(vf_graph_tree_stored) { graph<PSrl>(1, 2); }
VF_ENTRY(vf_graph_tree_restored) { graph<PSrl>(1, 1); }
VF_ENTRY(vf_graph_msgpack) { graph<PMsgPack>(1, 0); }
VF_ENTRY(vf_graph_json) { graph<PJson>(1, 0); }
/* storing twice, restoring twice with the same tree: no sharing across documents */
VF_ENTRY(vf_twice) {
    collide = false; Shape s = shape(1); int64_t id[3] = { 1, 2, 3 }; std::vector<uint8_t> a, b; PSrl p; { R r = build(s, id); Tree t; bool first = pick("load first", 2); if(first) t.load_object(r); a = t.store(r, p); b = t.store(r, p); vf_assert(a == b, "the same document"); }
    made = 0; { R g, h; Tree t; t.restore(g, a.data(), a.size(), p); int m = made; t.restore(h, b.data(), b.size(), p); for(auto &x : g.s) for(auto &y : h.s) vf_assert(x != y, "two documents share nothing"); alive -= m; same(s, id, h, m); alive += m; t.clear(); }
    vf_assert(alive == 0, "each destroyed once"); vf_reach("restored");
}
/* weak pointers: next to a shared pointer to the same object or another */
struct W { std::shared_ptr<L> a, b; std::weak_ptr<L> w; int order; void srl_resolve(Context &x) { if(order == 0) x("p", w); x("a", a); if(order == 1) x("p", w); x("ab", b); if(order == 2) x("p", w); } };
VF_ENTRY(vf_weak) {
    collide = false; std::vector<uint8_t> d; PSrl p; int order = pick("order", 3), which = pick("which", 3), ro = pick("order of restoring", 3); bool tree = pick("tree", 2);
    { W w; w.a = std::make_shared<L>(); w.a->id = 1; w.b = which == 2 ? w.a : std::make_shared<L>(); w.b->id = which == 2 ? 1 : 2; w.w = which == 0 ? w.a : w.b; w.order = order; Tree t; d = t.store(w, p); }
    vf_assert(alive == 0, "what was stored is not kept"); { W g; g.order = order; bool ok = true; Tree t; (void) ro;
    try { if(tree) { t.load_source(d.data(), d.size(), p); t.root().paste(g); } else t.restore(g, d.data(), d.size(), p); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok && g.w.lock() == (which == 0 ? g.a : g.b) && (g.a == g.b) == (which == 2) && g.a->id == 1 && g.b->id == (which == 2 ? 1 : 2), "the same object"); }
    vf_assert(alive == 0, "each destroyed once"); vf_reach("restored");
}
/* objects made and destroyed while storing: the same address does not make them the same object */
static L *slot[3]; static bool used[3];
static std::shared_ptr<L> reuse() { int i = 0; while(used[i]) i++; used[i] = true; return std::shared_ptr<L>(slot[i], [i](L *) { used[i] = false; }); }   /* memory that is free again is given out again */
struct Temp { int64_t id = 0; void srl_store(StoreContext &x) const { auto s = reuse(); s->id = id; x("p", s); } void srl_restore(RestoreContext &x) { std::shared_ptr<L> s; x("p", s); id = s->id; } };
struct Temps { std::vector<Temp> v; void srl_resolve(Context &x) { x("a", v); } };
VF_ENTRY(vf_temporaries) {
    collide = false; for(auto &l : slot) l = new L; Temps o; o.v.resize(3); for(int i = 0; i < 3; i++) o.v[i].id = i + 10; PSrl p; Tree t; std::vector<uint8_t> d; bool tree = pick("tree", 2); if(tree) { t.load_object(o); d = t.to_source(p); } else d = t.store(o, p);
    Temps g; t.restore(g, d.data(), d.size(), p); vf_assert(g.v.size() == 3 && g.v[0].id == 10 && g.v[1].id == 11 && g.v[2].id == 12, "different objects"); t.clear(); for(int i = 0; i < 3; i++) { vf_assert(!used[i], "given back"); delete slot[i]; } vf_assert(alive == 0, "each destroyed once"); vf_reach("restored");
}
/* pointers of all kinds, restoring cut off at any point */
struct K { L *raw = nullptr; std::unique_ptr<L> u; std::shared_ptr<L> s, s2; std::vector<std::unique_ptr<L>> v; ~K() { delete raw; } void srl_resolve(Context &x) { x("p", raw)("q", u)("a", s)("ab", s2)("s", v); } };
VF_ENTRY(vf_cut_off) {
    collide = false; std::vector<uint8_t> d; PSrl p; { K k; k.raw = new L; k.raw->id = 1; k.u.reset(new L); k.u->id = 2; k.s = k.s2 = std::make_shared<L>(); k.s->id = 3; k.v.emplace_back(new L); k.v[0]->id = 4; Tree t; d = t.store(k, p); }
    vf_assert(alive == 0, "storing makes no objects"); size_t n = (size_t) (pick("length / 32", 8) * 32); n += (size_t) pick("length % 32", 32); vf_assume(n <= d.size()); bool had = pick("had", 2), ok = true;
    { K g; if(had) { g.raw = new L; g.u.reset(new L); g.s = std::make_shared<L>(); } { Tree t; uint8_t *in = new uint8_t[n]; memcpy(in, d.data(), n); try { t.restore(g, in, n, p); } catch(Srl::Exception &) { ok = false; } delete[] in; } if(n == d.size()) vf_assert(ok && alive == 4 && g.raw->id == 1 && g.u->id == 2 && g.s == g.s2 && g.s->id == 3 && g.v.size() == 1 && g.v[0]->id == 4, "restored"); }
    vf_assert(alive == 0, "each destroyed once"); if(ok) vf_reach("restored"); else vf_reach("failed");
}
