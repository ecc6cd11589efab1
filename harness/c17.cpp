/* C17: the arena hands out disjoint, aligned, sufficiently large blocks. */
#include "vf.h"
#include "src/lib/Heap.cpp"
#include "vfutil.h"

static const size_t MaxN = (size_t) 1 << 34;
struct Blk { uint8_t *p; size_t n, i; uint8_t x; };
template<class T> static Blk take(Heap &h, const char *nn) {
    size_t n = vf_size(nn, MaxN);
    T *p = h.get_mem<T>(n);
    vf_assert((size_t) p % alignof(T) == 0, "aligned");
    vf_writable(p, n * sizeof(T));
    return { (uint8_t *) p, n * sizeof(T), 0, 0 };
}
/* a mark at an arbitrary place of each block: marks of disjoint blocks do not disturb each other */
template<size_t N> static void disjoint(Blk (&b)[N]) {
    vf_reach("compared");
    uint8_t x = vf_u8("first"), y = vf_u8("second"); vf_assume(x < y && y < N);
    Blk &k = b[vf_concrete(x)], &l = b[vf_concrete(y)];
    for(Blk *m : { &k, &l }) { m->i = vf_size("mark", MaxN * 8); vf_assume(m->i < m->n); m->x = vf_u8("val"); m->p[m->i] = m->x; }
    vf_assert((k.p[k.i] == k.x) & (l.p[l.i] == l.x), "blocks do not overlap");
}
VF_ENTRY(vf_two) { Heap h; Blk b[] = { take<uint8_t>(h, "n0"), take<uint8_t>(h, "n1") }; disjoint(b); }
VF_ENTRY(vf_types) { Heap h; Blk b[] = { take<uint8_t>(h, "n0"), take<uint64_t>(h, "n1") }; disjoint(b); }
VF_ENTRY(vf_types2) { Heap h; Blk b[] = { take<uint16_t>(h, "n0"), take<void *>(h, "n1") }; disjoint(b); }
VF_ENTRY(vf_objects) {
    Heap h;
    struct S { uint8_t c[5]; }; struct A { uint64_t q[3]; uint8_t r; };
    S *s = h.create<S>(); A *a = h.create<A>(); S *t = h.create<S>(); uint16_t *u = h.create<uint16_t>();
    vf_assert((size_t) a % alignof(A) == 0 && (size_t) u % 2 == 0, "aligned");
    vf_writable(s, 5); vf_writable(a, sizeof(A)); vf_writable(t, 5); vf_writable(u, 2);
    Blk b[] = { { s->c, 5 }, { (uint8_t *) a, sizeof(A) }, { t->c, 5 }, { (uint8_t *) u, 2 } };
    disjoint(b);
}
/* ---- from an arbitrary reachable state: a current segment (partly handed out) and up to two free ones ---- */
using SegL = Lib::Aux::SList<Heap::Segment>::Link;
static SegL *segment(Heap &h, const char *sn, size_t left_max) {
    size_t n = vf_size(sn, MaxN);
    auto *l = h.chain.get_link();
    l->val.data = new uint8_t[n]; l->val.size = n; l->val.sub_seg = false; l->next = nullptr;
    size_t left = n; if(left_max) { left = vf_size("left", MaxN); vf_assume(left <= n); }
    l->val.left = left;
    return l;
}
struct St {
    Heap h; SegL *cur; size_t ncur, nleft; SegL *f[2]; size_t nfree;
    St(size_t free_) : nfree(free_) {
        cur = segment(h, "size", 1); h.chain.used_segs.append(cur); h.crr_seg = &cur->val;
        ncur = cur->val.size; nleft = cur->val.left;
        for(size_t i = 0; i < nfree; i++) { f[i] = segment(h, "fsize", 0); h.chain.free_segs.append(f[i]); }
        h.cap = Heap::Max_Cap;  /* smaller capacities: the entries that start from a new arena, and vf_alloc */
    }
    Blk handed() { return { cur->val.data, ncur - nleft, 0, 0 }; }
};
VF_ENTRY(vf_state1) { St s(1); Blk b[] = { s.handed(), take<uint8_t>(s.h, "n0"), take<uint8_t>(s.h, "n1") }; disjoint(b); }
VF_ENTRY(vf_state2) { St s(2); Blk b[] = { s.handed(), take<uint8_t>(s.h, "n0") , take<uint8_t>(s.h, "n1") }; disjoint(b); }
VF_ENTRY(vf_state_w) { St s(1); Blk b[] = { s.handed(), take<uint64_t>(s.h, "n0"), take<uint8_t>(s.h, "n1") }; disjoint(b); }
/* giving a block back: it may be handed out again, but never twice */
VF_ENTRY(vf_give_back) {
    St s(0); s.h.crr_seg = nullptr; Blk a { s.cur->val.data + (s.ncur - s.nleft), s.nleft }; s.h.put_mem(a.p, a.n);
    Blk b[] = { s.handed(), take<uint8_t>(s.h, "n1"), take<uint8_t>(s.h, "n2") };
    disjoint(b);
}
/* after a reset */
VF_ENTRY(vf_reset) {
    St s(1); if(vf_bool("sub")) s.h.put_mem(s.f[0]->val.data, 0);
    s.h.clear();
    Blk b[] = { take<uint8_t>(s.h, "n1"), take<uint8_t>(s.h, "n2") };
    disjoint(b);
}
VF_ENTRY(vf_reset2) {
    Heap h; h.get_mem<uint8_t>(vf_size("n0", 900)); h.clear(); h.get_mem<uint8_t>(300); h.clear();
    Blk b[] = { take<uint8_t>(h, "n2"), take<uint8_t>(h, "n3") };
    disjoint(b);
}
/* moving the arena keeps what was handed out; the source can be used again */
VF_ENTRY(vf_move) {
    St s(0);
    Heap h; if(vf_bool("used")) h.get_mem<uint8_t>(5);
    h = std::move(s.h);
    Blk b[] = { s.handed(), take<uint8_t>(h, "n1"), take<uint8_t>(s.h, "n2") };
    disjoint(b);
}
VF_ENTRY(vf_destroy) { { Heap h; h.get_mem<uint8_t>(5); h.get_mem<uint64_t>(100); h.get_mem<uint8_t>(3); if(vf_bool("cleared")) { h.clear(); h.get_mem<uint8_t>(7); } } vf_reach("destroyed once"); }
/* a request that cannot be satisfied leaves the arena intact */
VF_ENTRY(vf_refused) {
    St s(0); size_t n = vf_u64("huge"); vf_assume(n > (size_t) 1 << 50);
    bool ok = true;
    try { s.h.get_mem<uint64_t>(n); } catch(std::bad_alloc &) { ok = false; }
    vf_assert(!ok, "refused"); vf_reach("refused");
    Blk b[] = { s.handed(), take<uint8_t>(s.h, "n1"), take<uint8_t>(s.h, "n2") };
    disjoint(b);
}
/* the contract of alloc that C09 and C10 rely on */
VF_ENTRY(vf_alloc) {
    St s(2); s.h.cap = vf_size("cap", Heap::Max_Cap); size_t n = vf_size("n", MaxN), size = s.cur->val.size, left = s.cur->val.left;
    auto *g = s.h.alloc(n, 1);
    auto *b = s.h.chain.used_segs.back;
    vf_assert(&b->val == g && b != s.cur && s.cur->next == b && b->next == nullptr && s.h.chain.used_segs.front == s.cur, "appended to the segments in use");
    vf_assert(g->left == g->size && g->size >= n, "empty and large enough");
    vf_assert(s.cur->val.size == size && s.cur->val.left == left, "the previous segment keeps its fill");
    vf_writable(g->data, g->size);
    Blk x[] = { s.handed(), { g->data, g->size } };
    disjoint(x);
}
