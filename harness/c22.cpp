/* C22: access to children by index and name is exact. */
#include "names.h"
static int nv, nn, V[4], M[4]; static int64_t X[4], Y[4];
static void build(Tree &t, int maxv, int maxn, bool coll) {
    collide = coll; nv = pick("values", maxv + 1); nn = pick("nodes", maxn + 1); auto &r = t.root();
    for(int i = 0; i < nv; i++) { V[i] = pick("value name"); X[i] = (int64_t) vf_u64("value"); }
    for(int i = 0; i < nn; i++) { M[i] = pick("node name"); Y[i] = (int64_t) vf_u64("content"); }
    for(int i = 0; i < nv; i++) r.insert(nm(V[i]), X[i]);
    for(int i = 0; i < nn; i++) { Node c(t); c.insert("x", Y[i]); r.insert(nm(M[i]), c); }
}
static bool isv(Value &v, int i) { return v.type() == Type::I64 && v.pblock().i64 == X[i] && is_name(v.name(), V[i]); }
static bool isn(Node &n, int i) { return n.num_values() == 1 && n.value(0).pblock().i64 == Y[i] && is_name(n.name(), M[i]); }
static int firstv(int q) { for(int i = 0; i < nv; i++) if(V[i] == q) return i; return -1; }
static int firstn(int q) { for(int i = 0; i < nn; i++) if(M[i] == q) return i; return -1; }
template<bool coll> static void by_name() {
    Tree t; build(t, 2, 2, coll); int q = pick("asked"); int fv = firstv(q), fn = firstn(q); auto &r = t.root(); Value *v = nullptr; Node *n = nullptr;
    try { v = &r.value(nm(q)); } catch(Srl::Exception &) { }
    vf_assert((v != nullptr) == (fv >= 0) && (!v || isv(*v, fv)), "the value of that name, or an exception");
    try { n = &r.node(nm(q)); } catch(Srl::Exception &) { }
    vf_assert((n != nullptr) == (fn >= 0) && (!n || isn(*n, fn)), "the node of that name, or an exception");
    bool ok = true; Union u; try { u = r.get(nm(q)); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (fv >= 0 || fn >= 0) && (!ok || (fv >= 0 ? u.value() == v && !u.node() : u.node() == n && !u.value())), "the child of that name, or an exception");
    auto o = r.try_get(nm(q)); vf_assert(o.has_value() == ok && (!ok || (o->value() == u.value() && o->node() == u.node())), "the child of that name, or nothing");
    vf_assert(r.has_value(nm(q)) == (fv >= 0) && r.has_node(nm(q)) == (fn >= 0), "presence");
    auto lv = r.find_values(nm(q)); auto ln = r.find_nodes(nm(q)); auto iv = lv.begin(); auto in = ln.begin(); size_t cv = 0, cn = 0;
    for(int i = 0; i < nv; i++) if(V[i] == q) { cv++; vf_assert(iv != lv.end() && isv(**iv, i), "all values of that name"); ++iv; }
    for(int i = 0; i < nn; i++) if(M[i] == q) { cn++; vf_assert(in != ln.end() && isn(**in, i), "all nodes of that name"); ++in; }
    vf_assert(lv.size() == cv && ln.size() == cn, "all children of that name and no other"); if(ok) vf_reach("found"); else vf_reach("absent");
}
VF_ENTRY(vf_name) { by_name<false>(); }
VF_ENTRY(vf_name_collide) { by_name<true>(); }
/* names given in another encoding, on insertion or when asking */
VF_ENTRY(vf_name_encodings) {
    Tree t; collide = false; auto &r = t.root(); size_t e1 = (size_t) pick("stored", 3), e2 = (size_t) pick("asked for", 3); int a = pick("value name"), q = pick("asked"); int64_t x = (int64_t) vf_u64("value");
    auto enc = [](size_t e) { return e == 0 ? Encoding::UTF8 : e == 1 ? Encoding::UTF16 : Encoding::UTF32; };
    auto wa = wide(Alpha[a], (size_t) 1 << e1), wq = wide(Alpha[q], (size_t) 1 << e2);
    r.insert(String(wa.data(), wa.size(), enc(e1)), x); String s(wq.data(), wq.size(), enc(e2)); bool ok = true;
    vf_assert(is_name(r.value(0).name(), a), "the name is stored");
    try { auto &v = r.value(s); vf_assert(v.pblock().i64 == x, "the value of that name"); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (a == q) && r.has_value(s) == (a == q) && r.try_get(s).has_value() == (a == q), "the value of that name, or an exception"); if(ok) vf_reach("found"); else vf_reach("absent");
}
VF_ENTRY(vf_index) {
    Tree t; build(t, 2, 2, false); auto &r = t.root(); size_t i = (size_t) vf_u64("index"); vf_assume((i < 5) | (i > ~(size_t) 0 - 2)); i = (size_t) vf_concrete(i);
    Value *v = nullptr; Node *n = nullptr; size_t sv = (size_t) nv, sn = (size_t) nn;
    try { v = &r.value(i); } catch(Srl::Exception &) { }
    vf_assert((v != nullptr) == (i < sv) && (!v || isv(*v, (int) i)), "the value at that position, or an exception");
    try { n = &r.node(i); } catch(Srl::Exception &) { }
    vf_assert((n != nullptr) == (i < sn) && (!n || isn(*n, (int) i)), "the node at that position, or an exception");
    bool ok = true; Union u; try { u = r.get(i); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (i < sv || i < sn) && (!ok || (i < sn ? u.node() == n && !u.value() : u.value() == v && !u.node())), "the child at that position, or an exception");
    auto o = r.try_get(i); vf_assert(o.has_value() == ok, "the child at that position, or nothing"); if(ok) vf_reach("found"); else vf_reach("absent");
    vf_assert(r.num_values() == sv && r.num_nodes() == sn, "the number of children");
}
/* removal: exactly the named child, the others stay in order */
template<bool none = true> static void left(Node &r, int gv, int gn) {
    vf_assert(r.num_values() == (size_t) nv - (gv >= 0) && r.num_nodes() == (size_t) nn - (gn >= 0), "one child less, or none");
    size_t k = 0; for(int i = 0; i < nv; i++) if(i != gv) { vf_assert(isv(r.value(k), i), "the other values stay"); k++; }
    k = 0; for(int i = 0; i < nn; i++) if(i != gn) { vf_assert(isn(r.node(k), i), "the other nodes stay"); k++; }
    if(gv >= 0 || gn >= 0) vf_reach("removed"); else if constexpr(none) vf_reach("nothing to remove");
}
VF_ENTRY(vf_remove_value) { Tree t; build(t, 3, 1, false); int q = pick("asked"); t.root().remove_value(nm(q)); left(t.root(), firstv(q), -1); }
VF_ENTRY(vf_remove_node) { Tree t; build(t, 1, 3, false); int q = pick("asked"); t.root().remove_node(nm(q)); left(t.root(), -1, firstn(q)); }
VF_ENTRY(vf_remove_index) {
    Tree t; build(t, 2, 2, false); int i = pick("index", 4); bool v = pick("value", 2);
    if(v) { t.root().remove_value((size_t) i); left(t.root(), i < nv ? i : -1, -1); } else { t.root().remove_node((size_t) i); left(t.root(), -1, i < nn ? i : -1); }
}
VF_ENTRY(vf_remove_pointer) {
    Tree t; build(t, 2, 2, false); int i = pick("index", 2); bool v = pick("value", 2); vf_assume(i < (v ? nv : nn));
    if(v) { t.root().remove_value(&t.root().value((size_t) i)); left<false>(t.root(), i, -1); } else { t.root().remove_node(&t.root().node((size_t) i)); left<false>(t.root(), -1, i); }
}
/* all children, also of nested nodes */
VF_ENTRY(vf_all) {
    Tree t; build(t, 2, 2, false); auto &r = t.root(); auto lv = r.all_values(), lr = r.all_values(true); auto ln = r.all_nodes();
    vf_assert(lv.size() == (size_t) nv && ln.size() == (size_t) nn && lr.size() == (size_t)(nv + nn), "all children");
    auto i = lr.begin(); for(int k = 0; k < nv; k++, ++i) vf_assert(isv(**i, k), "in order"); for(int k = 0; k < nn; k++, ++i) vf_assert((*i)->pblock().i64 == Y[k], "in order");
    vf_reach("listed");
}
