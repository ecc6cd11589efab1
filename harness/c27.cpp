/* C27: polymorphic objects restore as the registered type or are rejected. */
#include "feed.h"
static int alive; static const TypeID *id_d1, *id_d2, *id_e, *id_x;
struct Base { int64_t p = 0; Base() { alive++; } Base(const Base &) = delete; virtual ~Base() { alive--; } virtual const TypeID &srl_type_id() = 0; virtual void srl_resolve(Context &c) { c(nm(4), p); } virtual int what() { return 0; } };
struct Pad { int64_t pad = 77; virtual ~Pad() { } virtual int padded() { return 5; } };
struct D1 : Base { const TypeID &srl_type_id() override { return *id_d1; } void srl_resolve(Context &c) override { Base::srl_resolve(c); } int what() override { return 1; } };
struct D2 : Pad, Base { int64_t q = 8; const TypeID &srl_type_id() override { return *id_d2; } void srl_resolve(Context &c) override { Base::srl_resolve(c); c(nm(5), q); } int what() override { return 2; } };   /* Base is not its first base */
struct E : D1 { const TypeID &srl_type_id() override { return *id_e; } void srl_resolve(Context &c) override { Base::srl_resolve(c); } int what() override { return 3; } };
struct X { int64_t r = 1; X() { alive++; } virtual ~X() { alive--; } virtual const TypeID &srl_type_id() { return *id_x; } void srl_resolve(Context &c) { c(nm(4), r); } virtual int what() { return 4; } };      /* registered, but not derived from Base */
struct Types { Lib::TypeRegistration<D1> d1 { "a" }; Lib::TypeRegistration<D2> d2 { "ab" }; Lib::TypeRegistration<E> e { "long name number one!" }; Lib::TypeRegistration<X> x { "long name number two!" };
    Types() { id_d1 = &d1; id_d2 = &d2; id_e = &e; id_x = &x; } };
/* what the document names: registered classes, a name not registered, the empty name, a number instead of a name, nothing */
static const int What[] = { 1, 2, 3, 4 };
static void doc(Feed &f, int name, int64_t p, int64_t q, int missing) {
    f.open(); f.open(0);
    bool first = pick("type first", 2); auto put = [&] { if(name < 5) { f.txt(8, name); } else if(name == 5) f.txt(8, -1); else if(name == 6) f.num(8, 3); };
    if(first) put(); if(missing != 1) f.num(4, (uint64_t) p); if(missing != 2) f.num(5, (uint64_t) q); if(!first) put(); f.end(); f.num(1, 42); f.end();
}
template<class U> static bool fits(int name);
template<> bool fits<Base>(int n) { return n < 3; }
template<> bool fits<D1>(int n) { return n == 0 || n == 2; }
template<> bool fits<D2>(int n) { return n == 1; }
template<> bool fits<X>(int n) { return n == 3; }
template<class U> static U *first();
template<> Base *first<Base>() { return new D1; }
template<> D1 *first<D1>() { return new E; }
template<> D2 *first<D2>() { return new D2; }
template<> X *first<X>() { return new X; }
static int64_t num(Base &b) { return b.p; } static int64_t num(X &x) { return x.r; }
template<class U> static void check(U *u, int name, int64_t p, int64_t q) {
    vf_assert(u && u->what() == What[name] && num(*u) == p && typeid(*u) == (name == 0 ? typeid(D1) : name == 1 ? typeid(D2) : name == 2 ? typeid(E) : typeid(X)), "an object of the class that was named");
    if constexpr(std::is_same<U, Base>::value) if(name == 1) { auto *d = static_cast<D2 *>(u); vf_assert(d->q == q && d->pad == 77 && d->padded() == 5, "completely"); }
}
template<class U, bool lazy> static void restore() {
    collide = pick("colliding", 2); Types types; int name = pick("type", 8), kind = pick("pointer", 3), missing = pick("missing", 3); bool had = pick("had", 2); int64_t p = (int64_t) vf_u64("p"), q = (int64_t) vf_u64("q");
    Feed f; doc(f, name, p, q, missing); bool good = fits<U>(name) && missing != 1 && !(missing == 2 && name == 1), ok = true; int64_t z = 0;
    { Tree t; if(lazy) t.unpack(nothing(), f); else t.load_source(nothing(), f);
      if(kind == 0) { U *u = had ? first<U>() : nullptr; try { t.root().paste_field(nm(0), u); } catch(Srl::Exception &) { ok = false; } if(ok && good) check(u, name, p, q); else vf_assert((u != nullptr) == had, "the object that was there stays"); delete u; }
      if(kind == 1) { std::unique_ptr<U> u(had ? first<U>() : nullptr); try { t.root().paste_field(nm(0), u); } catch(Srl::Exception &) { ok = false; } if(ok && good) check(u.get(), name, p, q); }
      if(kind == 2) { std::vector<std::unique_ptr<U>> v; v.emplace_back(); try { t.root().paste_field(nm(0), v[0]); } catch(Srl::Exception &) { ok = false; } if(ok && good) check(v[0].get(), name, p, q); }
      vf_assert(ok == good, "restored or rejected"); t.root().paste_field(nm(1), z); vf_assert(z == 42, "the other members"); }
    vf_assert(alive == 0, "no object is leaked"); if(ok) vf_reach("restored"); else vf_reach("rejected");
}
VF_ENTRY(vf_base_lazy) { restore<Base, true>(); }
VF_ENTRY(vf_base_parsed) { restore<Base, false>(); }
VF_ENTRY(vf_derived) { restore<D1, true>(); }
VF_ENTRY(vf_second) { restore<D2, true>(); }
VF_ENTRY(vf_other) { restore<X, false>(); }
/* a name is registered once */
VF_ENTRY(vf_register) {
    collide = pick("colliding", 2); Types types; int n = pick("name", 5); bool ok = true; try { Lib::TypeRegistration<D1> again(Alpha[n]); } catch(Srl::Exception &) { ok = false; } vf_assert(ok == (n == 4), "a name is registered once");
    std::unique_ptr<Base> b; ok = true; try { b = Lib::registrations()->create<Base>(nm(n)); } catch(Srl::Exception &) { ok = false; } vf_assert(ok == (n < 3 || n == 4) && (!ok || b->what() == (n == 4 ? 1 : What[n])), "and stays what it was"); b.reset(); vf_assert(alive == 0, "no object is leaked"); if(ok) vf_reach("made"); else vf_reach("rejected");
}
/* stored and restored */
struct H { std::vector<std::unique_ptr<Base>> v; Base *raw = nullptr; std::shared_ptr<Base> s, s2; ~H() { delete raw; } void srl_resolve(Context &c) { c("a", v)("ab", raw)("p", s)("q", s2); } };
static Base *make(int n) { return n == 0 ? (Base *) new D1 : n == 1 ? (Base *) new D2 : (Base *) new E; }
template<class P> static void round_trip(bool tree) {
    collide = false; Types types; int n[3]; for(int &x : n) x = pick("class", 3); bool same = pick("same", 2); std::vector<uint8_t> d; P p;
    { H h; h.v.emplace_back(make(n[0])); h.v.emplace_back(make(n[1])); h.v[0]->p = 5; h.v[1]->p = 6; h.raw = make(n[1]); h.raw->p = 7; h.s.reset(make(n[2])); h.s->p = 8; if(same) h.s2 = h.s; else { h.s2.reset(make(n[0])); h.s2->p = 9; } Tree t; d = t.store(h, p); }
    vf_assert(alive == 0, "no object is leaked"); { H g; { Tree t; if(tree) { t.load_source(d.data(), d.size(), p); t.root().paste(g); } else t.restore(g, d.data(), d.size(), p); }
    vf_assert(g.v.size() == 2 && g.v[0]->what() == n[0] + 1 && g.v[1]->what() == n[1] + 1 && g.v[0]->p == 5 && g.v[1]->p == 6 && g.raw->what() == n[1] + 1 && g.raw->p == 7 && g.s->what() == n[2] + 1 && g.s->p == 8 && (g.s == g.s2) == same && g.s2->p == (same ? 8 : 9) && alive == (same ? 4 : 5), "every object as its class"); }
    vf_assert(alive == 0, "no object is leaked"); vf_reach("restored");
}
VF_ENTRY(vf_round_trip_native) { round_trip<PSrl>(false); }
VF_ENTRY(vf_round_trip_json) { round_trip<PJson>(true); }
VF_ENTRY(vf_round_trip_msgpack) { round_trip<PMsgPack>(false); }
