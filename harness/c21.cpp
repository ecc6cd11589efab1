/* C21: members are restored regardless of order and of other members. */
#include "feed.h"
#include <map>
#include <tuple>
/* one member of the root: 0 number, 1 text, 2 node { p }, 3 node { s, q: { p }, p }, 4 node { p, q: { p: { q } , s }, s } with names from the same alphabet */
struct Mem { int kind; uint64_t x, y, z; };
static Mem mem(const char *w, int kinds = 4) { Mem m; m.kind = pick(w, kinds); m.x = vf_u64("x"); m.y = vf_u64("y"); m.z = vf_u64("z"); return m; }
static const int P = 0, Q = 1, S = 2;
static void put(Feed &f, int name, const Mem &m) {
    if(m.kind == 0) f.num(name, m.x);
    else if(m.kind == 1) f.str(name, m.x, 20);
    else if(m.kind == 2) { f.open(name); f.num(P, m.x); f.end(); }
    else { f.open(name, Type::Object); f.num(S, m.z); f.open(Q, Type::Array); f.num(P, m.y); f.open(S); f.end(); f.end(); f.num(P, m.x); f.end(); }
}
/* reads what `how` says; outer: the node, inner: its q */
static bool same_text(const std::string &s, uint64_t c) { if(s.size() != 20 || (uint8_t) s[0] != (uint8_t) c) return false; for(int i = 1; i < 20; i++) if(s[i] != 'a') return false; return true; }
struct In1 { int64_t p = 0; bool read; void srl_resolve(Context &c) { if(read) c(nm(P), p); } };
struct Out1 {
    int how, kind; int64_t p = 0, s = 0; In1 q; bool miss = false;
    void srl_resolve(Context &c) {
        if(how == 0) return;
        if(how == 1) { c(nm(P), p); return; }
        q.read = how != 2;
        if(how == 2) { c(nm(P), p); if(kind == 3) { c(nm(Q), q); c(nm(S), s); } }
        if(how == 3) { if(kind == 3) { c(nm(S), s)(nm(Q), q); } c(nm(P), p); }
        if(how == 4) { try { int64_t n; c(nm(3), n); } catch(Srl::Exception &) { miss = true; } if(kind == 3) c(nm(Q), q); c(nm(P), p); }
    }
};
static void ask(Node &r, int name, const Mem *m, int how, bool swapped) {
    bool ok = true;
    if(!m || swapped) { /* nothing of that name, or of the other kind */
        if(m && m->kind >= 2) { int64_t v; try { r.paste_field(nm(name), v); } catch(Srl::Exception &) { ok = false; } }
        else { Out1 o; o.how = how; o.kind = 2; try { r.paste_field(nm(name), o); } catch(Srl::Exception &) { ok = false; } }
        vf_assert(!ok, "a member that is not there is missing"); return;
    }
    if(m->kind == 0) { int64_t v = 0; try { r.paste_field(nm(name), v); } catch(Srl::Exception &) { ok = false; } vf_assert(ok && v == (int64_t) m->x, "the number stored under that name"); }
    else if(m->kind == 1) { std::string v; try { r.paste_field(nm(name), v); } catch(Srl::Exception &) { ok = false; } vf_assert(ok && same_text(v, m->x), "the text stored under that name"); }
    else {
        Out1 o; o.how = how; o.kind = m->kind; try { r.paste_field(nm(name), o); } catch(Srl::Exception &) { ok = false; }
        vf_assert(ok && (how == 0 || o.p == (int64_t) m->x) && (how < 2 || m->kind < 3 || ((how == 4 || o.s == (int64_t) m->z) && (how == 2 || o.q.p == (int64_t) m->y))) && (how != 4 || o.miss), "the members of the node stored under that name");
    }
}
static void begin(Tree &t, Feed &f, bool lazy) { if(lazy) t.unpack(nothing(), f); else t.load_source(nothing(), f); }
/* every order of requests, one of them for a member that is not there */
template<int k, bool lazy> static void by_name(int hows, bool missing, bool swap) {
    collide = false; Feed f; Mem m[k]; int rot = pick("names"); f.open();
    for(int i = 0; i < k; i++) { m[i] = mem("kind"); put(f, (i + rot) % NA, m[i]); } f.end();
    Tree t; begin(t, f, lazy); auto &r = t.root(); int left[4], n = 0; for(int i = 0; i < k; i++) left[n++] = i; if(missing) left[n++] = 3;
    int sw = swap ? pick("swapped", k) : -1;
    while(n > 0) {
        int j = pick("request", n), i = left[j]; for(int l = j; l + 1 < n; l++) left[l] = left[l + 1]; n--;
        ask(r, (i + rot) % NA, i < k ? &m[i] : nullptr, i < k && m[i].kind >= 2 ? pick("how", hows) : 0, i == sw);
    }
    vf_assert(!lazy || f.at <= f.ev.size(), "read"); vf_reach("done");
}
VF_ENTRY(vf_lazy_two) { by_name<2, true>(5, true, false); }
VF_ENTRY(vf_lazy_three) { by_name<3, true>(1, false, false); }
VF_ENTRY(vf_lazy_three_read) { by_name<3, true>(2, false, false); }
VF_ENTRY(vf_lazy_swapped) { by_name<2, true>(2, false, true); }
VF_ENTRY(vf_parsed_two) { by_name<2, false>(5, true, false); }
VF_ENTRY(vf_parsed_swapped) { by_name<2, false>(1, true, true); }
/* optional members and Unions, presence asked first */
struct Opt { int64_t v = 0; std::string s; Out1 n; int what; void srl_resolve(Context &c) {
    if(what & 1) c(nm(0), v, CtxFlags::Optional); if(what & 2) c(nm(1), s, CtxFlags::Optional); if(what & 4) c(nm(2), n, CtxFlags::Optional);
    if(!(what & 4)) c(nm(2), n, CtxFlags::Optional); if(!(what & 2)) c(nm(1), s, CtxFlags::Optional); if(!(what & 1)) c(nm(0), v, CtxFlags::Optional); } };
template<bool lazy> static void optional() {
    collide = false; Feed f; int have = pick("present", 8), order = pick("order", 3); Mem m[3]; for(int i = 0; i < 3; i++) { m[i].x = vf_u64("x"); m[i].y = vf_u64("y"); m[i].z = vf_u64("z"); } m[0].kind = 0; m[1].kind = 1; m[2].kind = 3;
    f.open(); for(int i = 0; i < 3; i++) { int j = (i + order) % 3; if(have >> j & 1) put(f, j, m[j]); } f.num(3, 5); f.end();
    Tree t; begin(t, f, lazy); Opt o; o.what = pick("first", 8); o.n.how = pick("how", 2); o.n.kind = 3; bool ok = true;
    try { t.root().paste(o); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok, "optional members are no error"); if(!ok) return;
    vf_assert(o.v == (have & 1 ? (int64_t) m[0].x : 0), "number or untouched"); vf_assert(have & 2 ? same_text(o.s, m[1].x) : o.s.empty(), "text or untouched"); vf_assert(o.n.p == (have & 4 && o.n.how ? (int64_t) m[2].x : 0), "node or untouched");
    vf_reach("done");
}
VF_ENTRY(vf_lazy_optional) { optional<true>(); }
VF_ENTRY(vf_parsed_optional) { optional<false>(); }
template<bool lazy> static void unions() {
    collide = false; Feed f; Mem m[2]; f.open(); for(int i = 0; i < 2; i++) { m[i] = mem("kind"); put(f, i, m[i]); } f.end();
    Tree t; begin(t, f, lazy); auto &r = t.root(); int a = pick("union", 3); bool first = pick("first", 2); if(a < 2 && !first) ask(r, 1 - a, &m[1 - a], m[1 - a].kind >= 2, false);
    Union u; bool ok = true; try { r.paste_field(nm(a), u); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (a < 2), "the member of that name or missing");
    if(ok) {
        auto *v = u.value(); auto *n = u.node(); vf_assert((v != nullptr) == (m[a].kind < 2) && (n != nullptr) == (m[a].kind >= 2), "the member of that name");
        if(v && m[a].kind == 0) vf_assert(v->unwrap<int64_t>() == (int64_t) m[a].x, "its number"); if(v && m[a].kind == 1) vf_assert(same_text(v->unwrap<std::string>(), m[a].x), "its text"); if(n) vf_assert(n->value(nm(P)).unwrap<int64_t>() == (int64_t) m[a].x, "its members");
    }
    if(a < 2 && first) ask(r, 1 - a, &m[1 - a], m[1 - a].kind >= 2, false);
    if(ok) vf_reach("there"); else vf_reach("missing");
}
VF_ENTRY(vf_lazy_union) { unions<true>(); }
VF_ENTRY(vf_parsed_union) { unions<false>(); }
/* by index: the values and the nodes each in their order */
template<bool lazy> static void by_index() {
    collide = false; Feed f; Mem m[3]; int n = pick("members", 4), vs[3], ns[3], nv = 0, nn = 0; f.open(-1, Type::Array);
    for(int i = 0; i < n; i++) { m[i] = mem("kind"); put(f, -1, m[i]); if(m[i].kind < 2) vs[nv++] = i; else ns[nn++] = i; } f.end();
    Tree t; begin(t, f, lazy); auto &r = t.root(); size_t iv = 0, in = 0;
    for(int s = 0; s < n + 1; s++) {
        bool ok = true; bool val = pick("value", 2);
        if(val) {
            int i = iv < (size_t) nv ? vs[iv] : -1;
            if(i >= 0 && m[i].kind == 1) { std::string x; try { r.paste_field(iv, x); } catch(Srl::Exception &) { ok = false; } vf_assert(ok && same_text(x, m[i].x), "the text at that index"); }
            else { int64_t x = 0; try { r.paste_field(iv, x); } catch(Srl::Exception &) { ok = false; } vf_assert(ok == (i >= 0) && (!ok || x == (int64_t) m[i].x), "the number at that index, or missing"); }
            iv += i >= 0;
        } else {
            int i = in < (size_t) nn ? ns[in] : -1; Out1 o; o.how = i >= 0 ? (int) (s & 1) : 0; o.kind = i >= 0 ? m[i].kind : 2; try { r.paste_field(in, o); } catch(Srl::Exception &) { ok = false; }
            vf_assert(ok == (i >= 0) && (!ok || !o.how || o.p == (int64_t) m[i].x), "the node at that index, or missing"); in += i >= 0;
        }
    }
    vf_reach("done");
}
VF_ENTRY(vf_lazy_index) { by_index<true>(); }
VF_ENTRY(vf_parsed_index) { by_index<false>(); }
/* a request that ends with an exception inside of a member leaves the other members as they are */
struct Bad { int how; int64_t p = 0; In1 q; struct Inner { int how; void srl_resolve(Context &c) { int64_t x; if(how == 2) c(nm(P), x); c(nm(how == 1 ? S : Q), x); } } in; std::vector<Inner> v; HTable<std::string, Inner> h;
    void srl_resolve(Context &c) { if(how > 4) c(nm(P), p); in.how = how % 5; if(in.how < 3) c(nm(Q), in); else if(in.how == 3) c(nm(Q), v); else c(nm(Q), h); } };
template<> struct Srl::Ctor<Bad::Inner> { static Bad::Inner Create() { return Bad::Inner { 0 }; } };
template<bool lazy> static void failing() {
    collide = false; Feed f; int64_t x[3]; for(auto &e : x) e = (int64_t) vf_u64("x"); bool before = pick("other first", 2);
    f.open(); if(before) f.num(1, x[0]); f.open(0); f.open(Q); f.num(P, x[1]); f.open(S); f.num(P, x[1]); f.end(); f.num(1, x[1]); f.num(2, x[1]); f.end(); f.num(P, x[1]); f.num(1, x[1]); f.end(); if(!before) f.num(1, x[0]); f.num(2, x[2]); f.end();
    Tree t; begin(t, f, lazy); Bad b; b.how = pick("how", 10); bool thrown = false;
    try { t.root().paste_field(nm(0), b); } catch(Srl::Exception &) { thrown = true; }
    int64_t y = 0, z = 0; bool ok = true; try { t.root().paste_field(nm(1), y); t.root().paste_field(nm(2), z); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok && y == x[0] && z == x[2], "the other members"); if(thrown) vf_reach("failed"); else vf_reach("restored");
}
VF_ENTRY(vf_lazy_failing) { failing<true>(); }
VF_ENTRY(vf_parsed_failing) { failing<false>(); }
/* containers: every element in order, members of the other kind left out, what is behind the container untouched */
struct Elem { int64_t p = 0; int64_t q = 7; int how = 1; void srl_resolve(Context &c) { if(how) c(nm(P), p); } };
template<bool lazy> static void containers() {
    collide = false; Feed f; int n = pick("elements", 4); int kind[3]; int64_t x[3]; int nv = 0, nn = 0; f.open(); f.open(0, Type::Array);
    for(int i = 0; i < n; i++) { kind[i] = pick("kind", 2); x[i] = (int64_t) vf_u64("x"); if(kind[i]) { f.open(); f.num(Q, 3); f.open(S); f.end(); f.num(P, (uint64_t) x[i]); f.num(S, 1); f.end(); nn++; } else { f.num(-1, (uint64_t) x[i]); nv++; } }
    f.end(); f.num(1, 42); f.end();
    Tree t; begin(t, f, lazy); auto &r = t.root(); bool ok = true; int how = pick("container", 5); int wantv = 0;
    if(how == 0 || how == 1) { std::vector<int64_t> v; std::list<int64_t> l; try { if(how) r.paste_field(nm(0), l); else r.paste_field(nm(0), v); } catch(Srl::Exception &) { ok = false; } if(how) v.assign(l.begin(), l.end()); vf_assert(ok && v.size() == (size_t) nv, "every value"); for(int i = 0; i < n; i++) if(!kind[i]) { vf_assert((size_t) wantv < v.size() && v[wantv] == x[i], "in order"); wantv++; } }
    else if(how == 2) { std::vector<Elem> v; try { r.paste_field(nm(0), v); } catch(Srl::Exception &) { ok = false; } vf_assert(ok && v.size() == (size_t) nn, "every node"); for(int i = 0; i < n; i++) if(kind[i]) { vf_assert((size_t) wantv < v.size() && v[wantv].p == x[i], "in order"); wantv++; } }
    else if(how == 3) { int64_t a[2] = { -1, -1 }; try { r.paste_field(nm(0), a); } catch(Srl::Exception &) { ok = false; } vf_assert(ok == (nv == 2), "an array takes exactly its number of values"); if(ok) for(int i = 0; i < n; i++) if(!kind[i]) { vf_assert(a[wantv] == x[i], "in order"); wantv++; } }
    else { Elem a[1]; try { r.paste_field(nm(0), a); } catch(Srl::Exception &) { ok = false; } vf_assert(ok == (nn == 1), "an array takes exactly its number of nodes"); if(ok) for(int i = 0; i < n; i++) if(kind[i]) vf_assert(a[0].p == x[i], "in order"); }
    int64_t z = 0; ok = true; try { r.paste_field(nm(1), z); } catch(Srl::Exception &) { ok = false; } vf_assert(ok && z == 42, "the member behind it"); vf_reach("done");
}
VF_ENTRY(vf_lazy_containers) { containers<true>(); }
VF_ENTRY(vf_parsed_containers) { containers<false>(); }
/* pairs, tuples and maps */
struct Map : std::list<std::pair<const int64_t, int64_t>> { void emplace(int64_t &&k, int64_t &&v) { emplace_back(k, v); } };
template<bool lazy> static void products() {
    collide = false; Feed f; int64_t x[6]; for(auto &e : x) e = (int64_t) vf_u64("x"); bool swap = pick("swapped", 2), extra = pick("extra", 2); int how = pick("how", 3);
    if(how == 0) { /* tuple: values and nodes interleaved in any way */
        f.open(); f.open(0, Type::Array); auto v0 = [&] { f.num(-1, (uint64_t) x[0]); }; auto n0 = [&] { f.open(); f.num(P, (uint64_t) x[1]); f.end(); };
        if(swap) { n0(); v0(); } else { v0(); n0(); } f.num(-1, (uint64_t) x[2]); if(extra) f.num(-1, 9); f.end(); f.num(1, 42); f.end();
        Tree t; begin(t, f, lazy); std::tuple<int64_t, Elem, int64_t> tp; bool ok = true; int64_t z = 0; try { t.root().paste_field(nm(0), tp); t.root().paste_field(nm(1), z); } catch(Srl::Exception &) { ok = false; }
        vf_assert(ok && std::get<0>(tp) == x[0] && std::get<1>(tp).p == x[1] && std::get<2>(tp) == x[2] && z == 42, "the parts of a tuple"); vf_reach("tuple");
    } else {
        if(how == 1) { x[0] = 3; x[2] = 4; } f.open(); f.open(0, how == 1 ? Type::Array : Type::Object);
        int pairs = how == 1 ? 2 : 1; for(int i = 0; i < pairs; i++) { if(how == 1) f.open(); int a = how == 1 ? 4 : 6, b = a + 1; if(swap) f.num(b, (uint64_t) x[2 * i + 1]); f.num(a, (uint64_t) x[2 * i]); if(extra) { f.open(2); f.end(); } if(!swap) f.num(b, (uint64_t) x[2 * i + 1]); if(how == 1) f.end(); }
        f.end(); f.num(1, 42); f.end(); Tree t; begin(t, f, lazy); bool ok = true; int64_t z = 0;
        if(how == 1) {
            Map m; try { t.root().paste_field(nm(0), m); t.root().paste_field(nm(1), z); } catch(Srl::Exception &) { ok = false; }
            vf_assert(ok && m.size() == 2 && z == 42, "every pair"); if(ok && m.size() == 2) { auto it = m.begin(); vf_assert(it->first == 3 && it->second == x[1], "key and value"); ++it; vf_assert(it->first == 4 && it->second == x[3], "key and value"); } vf_reach("map");
        }
        else { std::pair<int64_t, int64_t> p; try { t.root().paste_field(nm(0), p); t.root().paste_field(nm(1), z); } catch(Srl::Exception &) { ok = false; } vf_assert(ok && p.first == x[0] && p.second == x[1] && z == 42, "the parts of a pair"); vf_reach("pair"); }
    }
}
VF_ENTRY(vf_lazy_products) { products<true>(); }
VF_ENTRY(vf_parsed_products) { products<false>(); }
