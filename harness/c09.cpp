/* C09 / C10: the output is the exact concatenation of what was written.
   Histories are black boxes (set, operations, flush, compare); in them Heap::alloc is replaced by its contract
   "appends a segment with room for the request, which overlaps no other one" (established for the real code by
   c17.cpp). The step lemmas start from an arbitrary reachable state of Out. */
#include "vf.h"
#include "vfutil.h"

static const size_t MaxN = (size_t) 1 << 36;
extern "C" Heap::Segment *stub_alloc(Heap *h, size_t n, size_t align) {
    vf_assert(align == 1, "output memory is requested bytewise");
    auto *l = new Lib::Aux::SList<Heap::Segment>::Link();
    size_t sz = vf_size("cap", MaxN * 2); vf_assume(sz >= n); vf_assume(sz > 0);
    l->val.data = vf_bytes("fresh", sz); l->val.size = l->val.left = sz; l->val.sub_seg = true;
    if(h->chain.used_segs.back) h->chain.used_segs.back->next = l; else h->chain.used_segs.front = l;
    h->chain.used_segs.back = l;
    return &l->val;
}
struct Piece { const uint8_t *p; size_t n; };
static Piece piece(const char *nn, const char *bn) { size_t n = vf_size(nn, MaxN); return { vf_bytes(bn, n), n }; }
/* the buffer is the concatenation of the pieces (decided at an arbitrary position) */
template<size_t N> static void same(const std::vector<uint8_t> &v, const Piece (&x)[N]) {
    size_t i = vf_size("at", MaxN), off = 0, tot = 0;
    for(auto &p : x) tot += p.n;
    vf_assert(v.size() == tot, "nothing is lost or added");
    vf_reach("compared");
    uint8_t k = vf_u8("piece"); vf_assume(k < N); k = (uint8_t) vf_concrete(k);
    for(size_t j = 0; j < k; j++) off += x[j].n;
    vf_assume(i < x[k].n);
    vf_assert(v[off + i] == x[k].p[i], "every byte is in its place");
}
VF_ENTRY(vf_mem_writes) {
    Buf o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"), c = piece("n2", "b2");
    o.out.write(a.p, a.n); o.out.write(b.p, b.n); o.out.write(MemBlock(c.p, c.n));
    o.flush();
    same(o.v, { a, b, c });
}
VF_ENTRY(vf_mem_scalars) {
    Buf o; Piece a = piece("n0", "b0"); uint64_t x = vf_u64("x"); uint8_t y = vf_u8("y"); uint16_t z = vf_u16("z"); double f = vf_f64("f_x");
    o.out.write(a.p, a.n); o.out.write(x); o.out.write_byte(y); o.out.write(z); o.out.write(f);
    o.flush();
    same(o.v, { a, { (uint8_t *) &x, 8 }, { &y, 1 }, { (uint8_t *) &z, 2 }, { (uint8_t *) &f, 8 } });
}
VF_ENTRY(vf_mem_times) {
    Buf o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"); uint8_t y = vf_u8("y"); size_t n = vf_size("times", MaxN);
    o.out.write(a.p, a.n); o.out.write_times(n, y); o.out.write(b.p, b.n);
    o.flush();
    size_t i = vf_size("at", MaxN);
    vf_assert(o.v.size() == a.n + n + b.n, "nothing is lost or added");
    vf_reach("compared");
    uint8_t k = vf_u8("piece"); vf_assume(k < 3);
    if(k == 0) { vf_assume(i < a.n); vf_assert(o.v[i] == a.p[i], "byte before"); }
    else if(k == 1) { vf_assume(i < n); vf_assert(o.v[a.n + i] == y, "repeated byte"); }
    else { vf_assume(i < b.n); vf_assert(o.v[a.n + n + i] == b.p[i], "byte behind"); }
}
VF_ENTRY(vf_mem_ticket) {
    Buf o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"); uint32_t x = vf_u32("x");
    size_t k = vf_size("offset", 8);
    o.out.write(a.p, a.n); auto t = o.out.reserve(12); o.out.write(b.p, b.n);
    o.out.write(t, (uint8_t *) &x, k, 4);
    o.flush();
    size_t i = vf_size("at", MaxN);
    vf_assert(o.v.size() == a.n + 12 + b.n, "nothing is lost or added");
    vf_reach("compared");
    uint8_t w = vf_u8("piece"); vf_assume(w < 3);
    if(w == 0) { vf_assume(i < a.n); vf_assert(o.v[i] == a.p[i], "byte before"); }
    else if(w == 1) { vf_assume(i < 12); vf_assert(o.v[a.n + i] == ((i >= k) & (i < k + 4) ? (uint8_t)(x >> (8 * (i - k) & 31)) : 0), "the slot holds what was put into it"); }
    else { vf_assume(i < b.n); vf_assert(o.v[a.n + 12 + i] == b.p[i], "byte behind"); }
}
/* an Out that has been used before starts afresh (real arena) */
VF_ENTRY(vf_mem_again) {
    Buf o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"); vf_assume(a.n <= 3000 && b.n <= 3000);
    o.out.write(a.p, a.n); if(vf_bool("flushed")) o.flush();
    std::vector<uint8_t> v; o.out.set(Lib::Out::Source(v));
    o.out.write(b.p, b.n);
    o.out.flush();
    same(v, { b });
}
/* real arena, two writes of any size */
VF_ENTRY(vf_mem_arena) {
    Buf o; Piece a = piece("n0", "b0"), b = piece("n1", "b1");
    o.out.write(a.p, a.n); o.out.write(b.p, b.n);
    o.flush();
    same(o.v, { a, b });
}
/* ---- step lemma: from any reachable state, writing n bytes appends exactly them ---- */
struct St {
    Lib::Out out; std::vector<uint8_t> v; Lib::Aux::SList<Heap::Segment>::Link *old; size_t fill, total; uint8_t *copy;
    St() {
        out.set(Lib::Out::Source(v));
        size_t n = vf_size("size", MaxN), l = vf_size("left", MaxN); vf_assume(l <= n);
        old = new Lib::Aux::SList<Heap::Segment>::Link();
        old->val.data = vf_bytes("seg", n); old->val.size = n; old->val.left = l; old->val.sub_seg = true; old->next = nullptr;
        out.heap.chain.used_segs.front = out.heap.chain.used_segs.back = old;
        out.heap.crr_seg = &old->val;
        fill = n - l; total = vf_size("total", MaxN * 4); vf_assume(total >= fill); out.state.sz_total = total;
    }
    void appended(const uint8_t *p, size_t n) {
        size_t i = vf_size("i", MaxN);
        auto *b = out.heap.chain.used_segs.back;
        vf_assert(out.state.sz_total == total + n, "the total counts every byte");
        vf_assert(b->next == nullptr, "the last segment ends the list");
        vf_assert(out.heap.crr_seg == &b->val, "the next byte goes behind the last segment");
        if(b == old) {
            vf_assert(b->val.size - b->val.left == fill + n, "fill grows by the bytes written");
            if(i < n) vf_assert(b->val.data[fill + i] == p[i], "the byte follows the previous ones");
            vf_reach("same segment");
        } else {
            vf_assert(old->next == b && old->val.size - old->val.left == fill, "the previous segment is finished as it was");
            vf_assert(b->val.size - b->val.left == n, "the new segment holds the bytes written");
            if(i < n) vf_assert(b->val.data[i] == p[i], "the byte starts the new segment");
            vf_reach("new segment");
        }
    }
};
#ifndef VF_NATIVE
VF_ENTRY(vf_step_write) {
    St s; Piece a = piece("n0", "b0"); size_t j = vf_size("j", MaxN); vf_assume(j < s.fill); uint8_t was = s.old->val.data[j];
    s.out.write(a.p, a.n);
    s.appended(a.p, a.n);
    vf_assert(s.old->val.data[j] == was, "what was written before stays");
}
VF_ENTRY(vf_step_byte) { St s; uint8_t y = vf_u8("y"); s.out.write_byte(y); s.appended(&y, 1); }
VF_ENTRY(vf_step_word) { St s; uint64_t y = vf_u64("y"); s.out.write(y); s.appended((uint8_t *) &y, 8); }
#endif

/* ---- C10: streams. The stream is a byte sink with a position; write / seekp / tellp / flush are modelled by
   their contracts, everything in front of the starting position belongs to somebody else ---- */
#include <sstream>
#include <iostream>
static const size_t Cap = (size_t) 1 << 38;
static uint8_t *sink; static size_t s_pos, s_end, s_base; static bool s_flushed;
extern "C" std::ostream &stub_owrite(std::ostream *o, const char *p, long n) {
    vf_assert(n >= 0, "length of a write"); vf_readable(p, (size_t) n);
    memcpy(sink + s_pos, p, (size_t) n); s_pos += (size_t) n; if(s_pos > s_end) s_end = s_pos; s_flushed = false;
    return *o;
}
extern "C" std::streampos stub_tellp(std::ostream *) { return std::streampos((std::streamoff) s_pos); }
extern "C" std::ostream &stub_seekp(std::ostream *o, std::streampos p) {
    size_t q = (size_t)(std::streamoff) p;
    vf_assert(q >= s_base && q <= s_end, "seeks stay inside this output");
    s_pos = q; return *o;
}
extern "C" std::ostream &stub_oflush(std::ostream *o) { s_flushed = true; return *o; }
struct Strm {
#ifdef VF_NATIVE
    std::stringstream ss; std::string text; size_t base;
    Strm() { base = vf_size("base", 5000); for(size_t i = 0; i < base; i++) ss.put('#'); out.set(Lib::Out::Source((std::ostream &) ss)); }
    void flush() { out.flush(); text = ss.str(); }
    size_t size() { return text.size() - base; }
    uint8_t at(size_t i) { return (uint8_t) text[base + i]; }
#else
    std::ostream *os;
    Strm() {
        sink = vf_bytes("sink", Cap * 4); s_base = s_pos = s_end = vf_size("base", Cap);
        os = (std::ostream *) vf_bytes("stream", 8); out.set(Lib::Out::Source(*os));
    }
    void flush() { out.flush(); vf_assert(s_flushed, "the stream is flushed last"); vf_assert(s_pos == s_end, "the position is left behind the output"); }
    size_t size() { return s_end - s_base; }
    uint8_t at(size_t i) { return sink[s_base + i]; }
#endif
    Lib::Out out;
};
template<size_t N> static void ssame(Strm &o, const Piece (&x)[N]) {
    size_t i = vf_size("at", MaxN), off = 0, tot = 0;
    for(auto &p : x) tot += p.n;
    vf_assert(o.size() == tot, "nothing is lost or added");
    vf_reach("compared");
    uint8_t k = vf_u8("piece"); vf_assume(k < N); k = (uint8_t) vf_concrete(k);
    for(size_t j = 0; j < k; j++) off += x[j].n;
    vf_assume(i < x[k].n);
    vf_assert(o.at(off + i) == x[k].p[i], "every byte is in its place");
}
VF_ENTRY(vf_str_writes) {
    Strm o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"), c = piece("n2", "b2");
    o.out.write(a.p, a.n); o.out.write(b.p, b.n); o.out.write(MemBlock(c.p, c.n));
    o.flush();
    ssame(o, { a, b, c });
}
VF_ENTRY(vf_str_scalars) {
    Strm o; Piece a = piece("n0", "b0"); uint64_t x = vf_u64("x"); uint8_t y = vf_u8("y"); uint16_t z = vf_u16("z"); double f = vf_f64("f_x");
    o.out.write(a.p, a.n); o.out.write(x); o.out.write_byte(y); o.out.write(z); o.out.write(f);
    o.flush();
    ssame(o, { a, { (uint8_t *) &x, 8 }, { &y, 1 }, { (uint8_t *) &z, 2 }, { (uint8_t *) &f, 8 } });
}
VF_ENTRY(vf_str_times) {
    Strm o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"); uint8_t y = vf_u8("y"); size_t n = vf_size("times", MaxN);
    o.out.write(a.p, a.n); o.out.write_times(n, y); o.out.write(b.p, b.n);
    o.flush();
    size_t i = vf_size("at", MaxN);
    vf_assert(o.size() == a.n + n + b.n, "nothing is lost or added");
    vf_reach("compared");
    uint8_t k = vf_u8("piece"); vf_assume(k < 3);
    if(k == 0) { vf_assume(i < a.n); vf_assert(o.at(i) == a.p[i], "byte before"); }
    else if(k == 1) { vf_assume(i < n); vf_assert(o.at(a.n + i) == y, "repeated byte"); }
    else { vf_assume(i < b.n); vf_assert(o.at(a.n + n + i) == b.p[i], "byte behind"); }
}
VF_ENTRY(vf_str_ticket) {
    Strm o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"); uint32_t x = vf_u32("x");
    size_t k = vf_size("offset", 8);
    o.out.write(a.p, a.n); auto t = o.out.reserve(12); o.out.write(b.p, b.n);
    o.out.write(t, (uint8_t *) &x, k, 4);
    o.flush();
    size_t i = vf_size("at", MaxN);
    vf_assert(o.size() == a.n + 12 + b.n, "nothing is lost or added");
    vf_reach("compared");
    uint8_t w = vf_u8("piece"); vf_assume(w < 3);
    if(w == 0) { vf_assume(i < a.n); vf_assert(o.at(i) == a.p[i], "byte before"); }
    else if(w == 1) { vf_assume(i < 12); vf_assert(o.at(a.n + i) == ((i >= k) & (i < k + 4) ? (uint8_t)(x >> (8 * (i - k) & 31)) : 0), "the slot holds what was put into it"); }
    else { vf_assume(i < b.n); vf_assert(o.at(a.n + 12 + i) == b.p[i], "byte behind"); }
}
/* two slots, filled in the order of nested containers (inner first) after more output */
VF_ENTRY(vf_str_tickets) {
    Strm o; Piece a = piece("n0", "b0"), b = piece("n1", "b1"); uint32_t x = vf_u32("x"), y = vf_u32("y");
    auto t = o.out.reserve(4); o.out.write(a.p, a.n); auto u = o.out.reserve(4); o.out.write(b.p, b.n);
    o.out.write(u, (uint8_t *) &x, 0, 4); o.out.write(t, (uint8_t *) &y, 0, 4);
    o.flush();
    ssame(o, { { (uint8_t *) &y, 4 }, a, { (uint8_t *) &x, 4 }, b });
}
#ifndef VF_NATIVE
/* flush collects the segments in order (three segments of any size and fill) */
VF_ENTRY(vf_flush3) {
    Buf o; size_t tot = 0; Piece x[3];
    for(int k = 0; k < 3; k++) {
        size_t n = vf_size("size", MaxN), l = vf_size("left", MaxN); vf_assume(l <= n);
        auto *s = new Lib::Aux::SList<Heap::Segment>::Link();
        s->val.data = vf_bytes("seg", n); s->val.size = n; s->val.left = l; s->val.sub_seg = true;
        auto &c = o.out.heap.chain.used_segs;
        if(c.back) c.back->next = s; else c.front = s;
        c.back = s;
        x[k] = { s->val.data, n - l }; tot += n - l;
    }
    o.out.state.sz_total = tot;
    o.flush();
    same(o.v, x);
}
/* ---- streams, step lemma: any state reachable by writing to a stream ---- */
struct SSt : Strm {
    Piece flushed, buffered; size_t total;
    SSt() {
        size_t f = vf_size("flushed", MaxN); flushed = { vf_bytes("fb", f), f };
        memcpy(sink + s_pos, flushed.p, f); s_pos += f; s_end = s_pos;
        size_t cap = vf_size("scap", MaxN), left = vf_size("sleft", MaxN); vf_assume(left <= cap); vf_assume(cap > 0);
        buffered = { vf_bytes("bb", cap - left), cap - left };
        auto &s = out.state;
        s.mem_start = vf_bytes("buffer", cap); memcpy(s.mem_start, buffered.p, buffered.n);
        s.cap = cap; s.left = left; s.crr_mem = s.mem_start + (cap - left); s.segs_flushed = vf_size("segs", MaxN);
        total = s.sz_total = f + (cap - left);
    }
    void inv(size_t n) {
        auto &s = out.state;
        vf_assert(s.sz_total == total + n, "the total counts every byte");
        vf_assert(s.left <= s.cap && s.crr_mem == s.mem_start + (s.cap - s.left), "the cursor stands behind the buffered bytes");
        vf_writable(s.mem_start, s.cap);
        vf_assert(s_end - s_base + (s.cap - s.left) == s.sz_total, "every byte is in the stream or in the buffer");
        vf_assert(s_pos == s_end, "the stream stands at its end");
    }
};
VF_ENTRY(vf_sstep_write) {
    SSt o; Piece a = piece("n0", "b0");
    o.out.write(a.p, a.n); o.inv(a.n);
    o.flush();
    ssame(o, { o.flushed, o.buffered, a });
}
VF_ENTRY(vf_sstep_byte) { SSt o; uint8_t y = vf_u8("y"); o.out.write_byte(y); o.inv(1); o.flush(); ssame(o, { o.flushed, o.buffered, { &y, 1 } }); }
VF_ENTRY(vf_sstep_word) { SSt o; uint64_t y = vf_u64("y"); o.out.write(y); o.inv(8); o.flush(); ssame(o, { o.flushed, o.buffered, { (uint8_t *) &y, 8 } }); }
VF_ENTRY(vf_sstep_times) {
    SSt o; uint8_t y = vf_u8("y"); size_t n = vf_size("times", MaxN); o.out.write_times(n, y); o.inv(n); o.flush();
    size_t i = vf_size("at", MaxN);
    vf_assert(o.size() == o.total + n, "nothing is lost or added"); vf_reach("compared");
    if(vf_bool("front")) { vf_assume(i < o.total); vf_assert(o.at(i) == (i < o.flushed.n ? o.flushed.p[i] : o.buffered.p[i - o.flushed.n]), "earlier bytes stay"); }
    else { vf_assume(i < n); vf_assert(o.at(o.total + i) == y, "repeated byte"); }
}
/* a slot reserved in any state, filled in the next state or after a further write */
VF_ENTRY(vf_sstep_ticket) {
    SSt o; Piece a = piece("n0", "b0"); uint32_t x = vf_u32("x");
    auto t = o.out.reserve(4); o.inv(4); o.out.write(a.p, a.n); o.inv(4 + a.n);
    o.out.write(t, (uint8_t *) &x, 0, 4); o.inv(4 + a.n);
    o.flush();
    ssame(o, { o.flushed, o.buffered, { (uint8_t *) &x, 4 }, a });
}
#endif
