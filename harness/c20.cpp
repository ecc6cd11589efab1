/* C20: nesting depth is bounded on reading. A document of k nested scopes below the root is read up to k = 128 and rejected
   above; the decision falls when the scope number 129 is read, whatever follows. */
#include "feed.h"
static const int Limit = 128;
static int depth() { static const int D[] = { 0, 1, 2, 64, 127, 128, 129, 130, 600 }; return D[pick("depth", 9)]; }
static Type kind(int how, int i) { return (how == 0 || (how == 2 && i % 2)) ? Type::Array : Type::Object; }
/* siblings: none; a value and a scope of depth one before and behind each; scopes of depth 3 in every tenth */
static void nested(Feed &f, int k, int how, int sib) {
    for(int i = 0; i < k; i++) {
        if(sib == 1) { f.num(1, 1); f.open(2); f.end(); }
        if(sib == 2 && i % 10 == 9 && i < 100) { f.open(1); f.open(1); f.open(1); f.end(); f.end(); f.end(); }
        f.open(0, kind(how, i));
    }
    f.num(0, 5);
    for(int i = 0; i < k; i++) { f.end(); if(sib == 1) { f.num(2, 1); f.open(3); f.end(); } }
}
VF_ENTRY(vf_load) {
    collide = false; Feed f; int k = depth(), how = pick("kind", 3), sib = pick("siblings", 3); f.open(-1, kind(how, 1)); nested(f, k, how, sib); f.end(); if(k == 600) f.fault = 1000;
    Tree t; bool ok = true; try { t.load_source(nothing(), f); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (k <= Limit), "a document within the limit is read, a deeper one is rejected"); if(k == 600) vf_assert(f.at < 900, "before more is read");
    if(ok) { Node *n = &t.root(); for(int i = 0; i < k; i++) n = &n->node(nm(0)); vf_assert(n->value(nm(0)).unwrap<int64_t>() == 5, "it is read completely"); vf_reach("read"); } else vf_reach("rejected");
}
/* members that are stored while others are searched for */
VF_ENTRY(vf_lazy) {
    collide = false; Feed f; int k = depth(), how = pick("kind", 3), op = pick("operation", 4); f.open(-1, kind(how, 1)); nested(f, k, how, 0); f.end(); if(k == 600) f.fault = 1000;
    Tree t; bool ok = true; bool found = true; try {
        t.unpack(nothing(), f);
        if(op == 0) found = t.root().has_value(nm(3)); if(op == 1) found = t.root().has_node(nm(3));
        if(op == 2) { int64_t v; found = false; try { t.root().paste_field(nm(3), v); found = true; } catch(Srl::Exception &) { ok = t.root().parsed; } }
        if(op == 3) { Union u; found = false; try { t.root().paste_field(nm(3), u); found = true; } catch(Srl::Exception &) { ok = t.root().parsed; } }
    } catch(Srl::Exception &) { ok = false; found = false; }
    vf_assert(!found, "there is no such member"); if(k <= Limit) vf_assert(ok, "a document within the limit is read"); if(k > Limit + 1) vf_assert(!ok, "a deeper one is rejected"); if(k == 600) vf_assert(f.at < 900, "before more is read");
    if(ok) vf_reach("read"); else vf_reach("rejected");
}
/* what is not read is skipped at any depth, without recursion */
struct None { void srl_resolve(Context &) { } };
VF_ENTRY(vf_skip) {
    collide = false; Feed f; int k = depth(); f.open(); f.open(0); nested(f, k, 1, k < 200 ? pick("siblings", 3) : 0); f.end(); f.num(1, 42); f.end();
    Tree t; int64_t v = 0; None n; bool ok = true; try { t.unpack(nothing(), f); t.root().paste_field(nm(0), n); t.root().paste_field(nm(1), v); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok && v == 42, "skipping consumes exactly the member"); vf_reach("skipped");
}
/* the three formats */
template<class P> static void format(const std::vector<uint8_t> &bytes, int k) {
    Tree t; bool ok = true; P p; try { t.load_source(bytes.data(), bytes.size(), p); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (k <= Limit), "a document within the limit is read, a deeper one is rejected");
    if(ok) { Node *n = &t.root(); for(int i = 0; i < k; i++) n = &n->node((size_t) 0); vf_assert(n->num_nodes() == 0, "it is read completely"); vf_reach("read"); } else vf_reach("rejected");
}
static int edge() { static const int D[] = { 1, 127, 128, 129, 400 }; return D[pick("depth", 5)]; }
VF_ENTRY(vf_json) { collide = false; int k = edge(), how = pick("kind", 3); std::vector<uint8_t> b; auto put = [&](const char *s) { while(*s) b.push_back((uint8_t) *s++); };
    for(int i = 0; i <= k; i++) { bool ar = kind(how, i) == Type::Array; put(ar ? "[" : "{"); if(!ar && i < k) put("\"a\":"); } for(int i = k; i >= 0; i--) put(kind(how, i) == Type::Array ? "]" : "}"); format<PJson>(b, k); }
VF_ENTRY(vf_msgpack) { collide = false; int k = edge(), how = pick("kind", 3); std::vector<uint8_t> b;
    for(int i = 0; i <= k; i++) { bool ar = kind(how, i) == Type::Array; b.push_back((ar ? 0x90 : 0x80) | (i < k)); if(!ar && i < k) { b.push_back(0xA1); b.push_back('a'); } } format<PMsgPack>(b, k); }
VF_ENTRY(vf_native) { collide = false; int k = edge(), how = pick("kind", 3); std::vector<uint8_t> b; PSrl w; Lib::Out out; out.set(Lib::Out::Source(b));
    for(int i = 0; i <= k; i++) w.write(Value(kind(how, i)), i && kind(how, i - 1) == Type::Object ? MemBlock((const uint8_t *) "a", 1) : MemBlock(), out); for(int i = 0; i <= k; i++) w.write(Value(Type::Scope_End), MemBlock(), out); out.flush(); format<PSrl>(b, k); }
