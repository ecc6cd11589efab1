/* C08: reading from a stream gives the same bytes as reading from memory.
   The specification is one text T[0,N) and a position p. Streaming and memory sources are both compared with it:
   from an arbitrary reachable cursor state (any part of the text already read, any part of it still buffered, any
   buffer size), each cursor operation has the result the text determines and leaves a reachable state again. */
#include "vf.h"
#include "vfutil.h"
#include <istream>
#include <sstream>

static const size_t Max = (size_t) 1 << 36;
static const uint8_t *T; static size_t N, s_pos;
static const std::function<void()> fail = [] { throw Srl::Exception("end of data"); };
#ifndef VF_NATIVE
/* contract of std::istream::read: delivers as many of the next bytes as there are, at most n */
extern "C" std::istream &stub_iread(std::istream *s, char *p, long n) {
    vf_assert(n >= 0, "length of a read"); vf_writable(p, (size_t) n);
    size_t m = (size_t) n < N - s_pos ? (size_t) n : N - s_pos;
    memcpy(p, T + s_pos, m); s_pos += m; s->_M_gcount = (long) m;
    return *s;
}
#endif
static void text() { N = vf_size("size", Max); T = vf_bytes("text", N); s_pos = 0; }
struct Mem {                                    /* a memory source somewhere in the text */
    Lib::In in; size_t p;
    Mem() { text(); p = vf_size("p", Max); vf_assume(p <= N); in.set(Lib::In::Source(T, N)); in.pos += p; }
    size_t at() { return (size_t)(in.pos - T); }
    void inv() { vf_assert(in.start == T && in.end == T + N && in.pos >= T && in.pos <= in.end && !in.streaming, "a memory source stays inside its block"); }
};
#ifndef VF_NATIVE
struct Str {                                    /* a stream of which any part was read and any part is buffered */
    Lib::In in; size_t p;
    Str() {
        text();
        /* the text before the buffered part does not matter: T starts where the buffer starts */
        size_t b = vf_size("b", Max); p = vf_size("p", Max); vf_assume((p <= b) & (b <= N));
        in.streaming = true; in.stream = (std::istream *) vf_bytes("stream", 256); s_pos = b;
        size_t cap = vf_size("buffer", Max); vf_assume((cap >= b) & (cap > 0));
        in.buffer.resize(cap); memcpy(in.buffer.data(), T, b);
        in.start = in.buffer.data(); in.end = in.start + b; in.pos = in.start + p;
        in.eof_reached = vf_bool("eof"); vf_assume(!in.eof_reached || b == N);
    }
    size_t at() { return s_pos - (size_t)(in.end - in.pos); }
    void inv() {
        vf_assert(in.start == in.buffer.data() && (size_t)(in.end - in.start) <= in.buffer.size() && in.pos >= in.start && in.pos <= in.end, "the cursor stays inside the buffer");
        vf_assert(!in.eof_reached || s_pos == N, "end of data is only noted when everything was read");
        vf_assert(in.anchor == nullptr, "no anchor is left behind");
        size_t len = (size_t)(in.end - in.start), j = vf_size("buffered", Max * 2);
        vf_assert(len <= s_pos, "the buffer holds what was read last");
        vf_assume(j < len);
        vf_assert(in.start[j] == T[s_pos - len + j], "the buffer holds what was read last");
    }
};
struct Sem {                                    /* the same state as far as the operations see it (refilling by contract) */
    Lib::In in; size_t p;
    Sem() {
        text();
        size_t b = vf_size("b", Max); p = vf_size("p", Max); vf_assume((p <= b) & (b <= N)); s_pos = b;
        in.streaming = true; in.stream = (std::istream *) vf_bytes("stream", 256);
        uint8_t *m = vf_bytes("buffer", b); memcpy(m, T, b);
        in.start = m; in.end = m + b; in.pos = m + p;
        in.eof_reached = vf_bool("eof"); vf_assume(!in.eof_reached || b == N);
    }
    size_t at() { return s_pos - (size_t)(in.end - in.pos); }
    void inv() {
        vf_assert((in.pos >= in.start) & (in.pos <= in.end) && in.anchor == nullptr, "the cursor stays inside the buffer, no anchor is left behind");
        vf_assert(!in.eof_reached || s_pos == N, "end of data is only noted when everything was read");
        vf_readable(in.start, (size_t)(in.end - in.start));
    }
};
#endif
/* a source set up by the library itself */
struct New {
    Lib::In in; size_t p = 0;
#ifdef VF_NATIVE
    std::istringstream ss;
    New() { text(); ss.str(std::string((const char *) T, N)); in.set(Lib::In::Source(ss)); }
    size_t at() { return (size_t) ss.rdbuf()->pubseekoff(0, std::ios::cur, std::ios::in) - (size_t)(in.end - in.pos); }
#else
    New() { text(); in.set(Lib::In::Source(*(std::istream *) vf_bytes("stream", 256))); }
    size_t at() { return s_pos - (size_t)(in.end - in.pos); }
#endif
    void inv() { }
};
static void same(const uint8_t *q, size_t p, size_t n) {
    vf_readable(q, n); size_t i = vf_size("at", Max); vf_assume(i < n);
    vf_assert(q[i] == T[p + i], "the bytes of the text"); vf_reach("compared");
}
template<class S> static void op_move() {
    S s; size_t n = vf_size("n", Max); bool ok = true;
    try { s.in.move(n, fail); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (n <= N - s.p), "moves as far as the text goes");
    if(ok) { vf_assert(s.at() == s.p + n, "position"); vf_reach("moved"); s.inv(); }
}
template<class S> static void op_block() {
    S s; size_t n = vf_size("n", Max); bool ok = true; MemBlock b;
    try { b = s.in.read_block(n, fail); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (n <= N - s.p), "a block is delivered if the text has it");
    if(ok) { vf_assert(s.at() == s.p + n && b.size == n, "position"); if(vf_bool("bytes")) same(b.ptr, s.p, n); else s.inv(); }
}
template<class S> static void op_peek() {
    S s; size_t n = vf_size("n", Max); bool ok = true; const uint8_t *q = nullptr;
    try { q = s.in.peek(n, fail); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (n <= N - s.p), "looks ahead as far as the text goes");
    if(ok) { vf_assert(s.at() == s.p && q == s.in.pointer(), "position"); if(vf_bool("bytes")) same(q, s.p, n); else s.inv(); }
}
template<class S> static void op_try() {
    S s; size_t n = vf_size("n", Max);
    bool ok = s.in.try_peek(n);
    vf_assert(ok == (n <= N - s.p), "tells whether the text goes on");
    vf_assert(s.at() == s.p, "position");
    uint8_t w = vf_u8("what");
    if(w == 0) s.inv();
    else if(w == 1) { if(ok) same(s.in.pointer(), s.p, n); }
    else {                                      /* what is left can still be read */
        size_t k = vf_size("k", Max), q = s.p; vf_assume(k <= N - q);
        MemBlock b = s.in.read_block(k, fail); vf_assert(s.at() == q + k, "position"); same(b.ptr, q, k);
    }
}
template<class S> static void op_word() {
    S s; bool ok = true; uint64_t x = 0;
    try { x = s.in.template read_move<uint64_t>(fail); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (8 <= N - s.p), "a number is delivered if the text has it");
    if(ok) { uint64_t y; memcpy(&y, T + s.p, 8); vf_assert(x == y && s.at() == s.p + 8, "the number of the text"); vf_reach("read"); s.inv(); }
}
/* searching: the first delimiter or the end of the text is at most K bytes away (K steps of the loop) */
#ifndef VF_STEPS
#define VF_STEPS 1
#endif
static const size_t K = VF_STEPS;
static size_t first(size_t p, bool (*is)(uint8_t), bool &found) {
    size_t i = 0; found = false;
    for(; i <= K && p + i < N; i++) if(is(T[p + i])) { found = true; break; }
    vf_assume(i <= K); return i;
}
template<class S> static void op_until() {
    S s; bool found; size_t k = first(s.p, [](uint8_t c) { return c == '"' || c == ','; }, found), n = 0; bool ok = true;
    try { n = s.in.move_until(fail, '"', ','); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == found, "finds the delimiter if there is one");
    if(ok) { vf_assert(n == k && s.at() == s.p + k, "position"); vf_reach("found"); s.inv(); }
}
template<class S> static void op_block_until() {
    S s; bool found; size_t k = first(s.p, [](uint8_t c) { return c == '"' || c == ','; }, found); bool ok = true; MemBlock b;
    try { b = s.in.read_block_until(fail, '"', ','); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == found, "finds the delimiter if there is one");
    if(ok) { vf_assert(b.size == k && s.at() == s.p + k, "position"); if(vf_bool("bytes")) same(b.ptr, s.p, k); else s.inv(); }
}
template<class S> static void op_space() {
    S s; bool found; size_t k = first(s.p, [](uint8_t c) { return !(c == ' ' || c == '\n' || c == '\t' || c == '\r' || c == '\b' || c == '\f'); }, found); bool ok = true;
    try { s.in.skip_space(fail); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == found, "finds something that is not white space if there is something");
    if(ok) { vf_assert(s.at() == s.p + k, "position"); vf_reach("found"); s.inv(); }
}
template<class S> static void op_note() {
    S s; bool found; size_t k = first(s.p, [](uint8_t c) { return c == '"'; }, found); bool ok = true, esc = false, want = false; size_t n = 0;
    for(size_t i = 0; i < k; i++) want |= T[s.p + i] == '\\';
    Lib::In::Notify note('\\', esc);
    try { n = s.in.move_until(fail, note, '"'); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == found, "finds the delimiter if there is one");
    if(ok) { vf_assert(n == k && s.at() == s.p + k && esc == want, "position and what was seen on the way"); vf_reach("found"); s.inv(); }
}
/* a delimiter of two characters */
template<class S> static void op_token() {
    S s; vf_assume(s.p < N);
    static const std::array<const char, 2> end {{ '*', '/' }};
    bool ok = s.in.is_at_token(end);
    vf_assert(ok == (N - s.p >= 2 && T[s.p] == '*' && T[s.p + 1] == '/'), "recognises the token");
    vf_assert(s.at() == s.p, "position"); vf_reach("compared"); s.inv();
}
/* replacing tokens up to a delimiter */
template<class S> static void op_subst() {
    S s; static const std::array<const char, 2> n {{ '\\', 'n' }};
    size_t i = 0, m = 0; bool found = false; uint8_t want[K + 1];
    for(; i <= K && s.p + i < N; ) {
        uint8_t c = T[s.p + i];
        if(c == '"') { found = true; break; }
        if(c == '\\' && s.p + i + 1 < N && T[s.p + i + 1] == 'n') { want[m++] = '\n'; i += 2; } else { want[m++] = c; i++; }
    }
    vf_assume(i <= K);
    std::vector<uint8_t> out; bool ok = true; size_t r = 0;
    if(vf_bool("big")) out.resize(8);
    try { r = s.in.read_substitue(fail, '"', out, (uint8_t) '\n', n); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == found, "finds the delimiter if there is one");
    if(ok) {
        vf_assert(r == m && s.at() == s.p + i && out.size() >= r, "position"); vf_reach("found");
        if(vf_bool("bytes")) { for(size_t j = 0; j < m; j++) vf_assert(out[j] == want[j], "substituted text"); } else s.inv();
    }
}
#define OPS(X, S) VF_ENTRY(vf_##X##_move) { op_move<S>(); } VF_ENTRY(vf_##X##_block) { op_block<S>(); } VF_ENTRY(vf_##X##_peek) { op_peek<S>(); } \
    VF_ENTRY(vf_##X##_try) { op_try<S>(); } VF_ENTRY(vf_##X##_word) { op_word<S>(); } VF_ENTRY(vf_##X##_until) { op_until<S>(); } VF_ENTRY(vf_##X##_block_until) { op_block_until<S>(); } \
    VF_ENTRY(vf_##X##_space) { op_space<S>(); } VF_ENTRY(vf_##X##_note) { op_note<S>(); } VF_ENTRY(vf_##X##_token) { op_token<S>(); } VF_ENTRY(vf_##X##_subst) { op_subst<S>(); }
OPS(mem, Mem)
#ifndef VF_NATIVE
OPS(str, Sem)
#endif
#ifndef VF_NATIVE
/* what the cursor operations rely on: refilling keeps the position, everything from the anchor on, and delivers n
   bytes exactly if the text has them */
template<bool anchored, bool room, bool big> static void fetch() {
    Str s; size_t n = vf_size("n", Max), left = (size_t)(s.in.end - s.in.pos), l = vf_size("anchor", Max);
    vf_assume(n > left); vf_assume(l <= (size_t)(s.in.pos - s.in.start));
    if(anchored) s.in.anchor = s.in.pos - l;
    /* in one half of the cases the buffer surely has room */
    vf_assume((s.in.buffer.size() >= (n > 1024 ? n : 1024) + 32 + s_pos) == room);
    vf_assume((n > 1024) == big);
    bool ok = s.in.try_fetch_data(n);
    vf_assert(ok == (n <= N - s.p), "delivers exactly what the text has");
    vf_assert(s.at() == s.p, "position");
    vf_assert((size_t)(s.in.end - s.in.pos) >= n || (s.in.eof_reached && s_pos == N), "enough or the rest");
    vf_assert(anchored ? s.in.anchor == s.in.pos - l && (size_t)(s.in.pos - s.in.start) >= l : s.in.anchor == nullptr, "everything from the anchor on is kept");
    s.in.anchor = nullptr; vf_reach("fetched"); s.inv();
}
VF_ENTRY(vf_fetch_free_grow_small) { fetch<0, 0, 0>(); }
VF_ENTRY(vf_fetch_free_grow_big) { fetch<0, 0, 1>(); }
VF_ENTRY(vf_fetch_free_room_small) { fetch<0, 1, 0>(); }
VF_ENTRY(vf_fetch_free_room_big) { fetch<0, 1, 1>(); }
VF_ENTRY(vf_fetch_anchored_grow_small) { fetch<1, 0, 0>(); }
VF_ENTRY(vf_fetch_anchored_grow_big) { fetch<1, 0, 1>(); }
VF_ENTRY(vf_fetch_anchored_room_small) { fetch<1, 1, 0>(); }
VF_ENTRY(vf_fetch_anchored_room_big) { fetch<1, 1, 1>(); }
/* opening a stream leads to such a state */
VF_ENTRY(vf_fetch_new) {
    text(); Lib::In in; in.set(Lib::In::Source(*(std::istream *) vf_bytes("stream", 256)));
    vf_assert(in.streaming && in.start == in.buffer.data() && in.pos == in.start && !in.anchor && s_pos == (size_t)(in.end - in.start), "the cursor stands at the start");
    vf_assert(!in.eof_reached || s_pos == N, "end of data is only noted when everything was read");
    if(s_pos) { size_t i = vf_size("at", Max); vf_assume(i < s_pos); vf_assert(in.start[i] == T[i], "the bytes of the text"); }
    vf_reach("opened");
}
/* the same as a contract, for the operations that refill */
extern "C" bool stub_fetch(Lib::In *in, size_t n, size_t) {
    if(in->eof_reached || !in->streaming) return false;
    size_t left = (size_t)(in->end - in->pos), p = s_pos - left;
    vf_assert((n > left) | (left == 0), "refilled only when needed");
    size_t l = in->anchor ? (size_t)(in->pos - in->anchor) : 0, keep = vf_size("keep", Max), more = vf_size("more", Max);
    vf_assert((l <= (size_t)(in->pos - in->start)) & (in->pos <= in->end), "the anchor lies in the buffer");
    vf_assume((keep >= l) & (keep <= p)); vf_assume(more <= N - s_pos);
    bool ok = n <= N - p;
    vf_assume(ok ? left + more >= n : more == N - s_pos);
    size_t len = keep + left + more;
    uint8_t *b = vf_bytes("refilled", len); memcpy(b, T + (p - keep), len);
    if(in->start) vf_drop((void *) in->start);
    in->start = b; in->end = b + len; in->pos = b + keep; if(in->anchor) in->anchor = in->pos - l;
    s_pos += more; in->eof_reached = !ok;
    return ok;
}
#endif
/* black box: a stream opened by the library, three operations of any size */
VF_ENTRY(vf_new_history) {
    New s; size_t a = vf_size("n0", Max), b = vf_size("n1", Max), c = vf_size("n2", Max); bool ok = true; size_t got = 0; MemBlock r;
    try { s.in.move(a, fail); got = a; bool t = s.in.try_peek(b); vf_assert(t == (b <= N - a), "tells whether the text goes on"); r = s.in.read_block(c, fail); got += c; } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (a <= N && c <= N - a), "reads as far as the text goes");
    if(ok) { vf_assert(s.at() == got, "position"); same(r.ptr, a, c); }
}
VF_ENTRY(vf_new_two) {
    New s; size_t a = vf_size("n0", Max), c = vf_size("n2", Max); bool ok = true; MemBlock r; size_t i = vf_size("i", Max); bool right = true;
    try { r = s.in.read_block(a, fail); if(i < a) right = r.ptr[i] == T[i]; r = s.in.read_block(c, fail); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok == (a <= N && c <= N - a), "reads as far as the text goes");
    vf_assert(right, "the bytes of the first block");
    if(ok) same(r.ptr, a, c);
}
/* ---- the parsers of the binary formats: one item of any text, from a stream in any state and from memory ---- */
#ifndef VF_NATIVE
struct Result { bool ok = true; std::pair<MemBlock, Value> v { MemBlock(), Value(Type::Null) }; };
template<class P> static Result item(P &p, Lib::In &in) { Result r; try { r.v = p.read(in); } catch(Srl::Exception &) { r.ok = false; } return r; }
/* a short text; refilling (by contract) delivers as little as it may or everything, into new memory */
static bool greedy;
extern "C" bool stub_refill(Lib::In *in, size_t n, size_t) {
    if(in->eof_reached || !in->streaming) return false;
    size_t left = (size_t)(in->end - in->pos), p = s_pos - left, l = in->anchor ? (size_t)(in->pos - in->anchor) : 0; bool ok = n <= N - p;
    size_t more = !ok || greedy ? N - s_pos : n > left ? n - left : 0, len = l + left + more; uint8_t *b = new uint8_t[len + 1]; memcpy(b, T + (p - l), len);
    delete[] in->start; in->start = b; in->end = b + len; in->pos = b + l; if(in->anchor) in->anchor = b; s_pos += more; in->eof_reached = !ok; return ok;
}
struct Short {
    Lib::In in; size_t p = 0;
    Short(size_t n) { N = (size_t) vf_concrete(vf_size("size", n)); T = vf_bytes("text", N); s_pos = (size_t) vf_concrete(vf_size("buffered", n)); vf_assume(s_pos <= N); greedy = vf_concrete(vf_bool("greedy")); uint8_t *m = new uint8_t[s_pos + 1]; memcpy(m, T, s_pos); in.streaming = true; in.stream = nullptr; in.start = in.pos = m; in.end = m + s_pos; in.eof_reached = false; }
    ~Short() { delete[] in.start; }
    size_t at() { return s_pos - (size_t)(in.end - in.pos); }
};
template<class P> static void parse(P &a, P &b, bool names, size_t n, int first = -1, int second = -1) {
    Short s(n); vf_assume(first < 0 || N == 0 || T[0] == first); vf_assume(second < 0 || N < 2 || T[1] == second); Lib::In mem; mem.set(Lib::In::Source(T, N)); Result m = item(a, mem), r = item(b, s.in);
    vf_assert(m.ok == r.ok, "both or neither reject"); if(!m.ok) { vf_reach("rejected"); return; }
    vf_assert(s.at() == s.p + (size_t)(mem.pos - T - s.p), "as far"); auto &x = m.v, &y = r.v; size_t j = vf_size("j", Max);
    vf_assert(x.second.type() == y.second.type() && x.second.size() == y.second.size() && x.first.size == y.first.size, "the same item"); vf_reach("read");
    if(names) { vf_assume(j < x.first.size); vf_assert(x.first.ptr[j] == y.first.ptr[j], "the same name"); }
    else if(x.second.type() == Type::String || x.second.type() == Type::Binary) { vf_assume(j < x.second.size()); vf_assert(x.second.data()[j] == y.second.data()[j], "the same bytes"); }
    else vf_assert(x.second.pblock().ui64 == y.second.pblock().ui64, "the same value");
}
template<bool object, int k> static void native(bool names) {
    PSrl a, b; a.push_scope(object ? Type::Object : Type::Array); b.push_scope(object ? Type::Object : Type::Array);
    for(int i = 0; i < k; i++) { MemBlock x(vf_bytes("name", 2), 2); a.indexed_strings.push_back(x); b.indexed_strings.push_back(x); }
    parse(a, b, names, object ? 5 : 6);
}
VF_ENTRY(vf_parse_native_array) { native<false, 0>(false); }
VF_ENTRY(vf_parse_native_names) { native<true, 0>(true); }
VF_ENTRY(vf_parse_native_values) { native<true, 0>(false); }
VF_ENTRY(vf_parse_native_index) { native<true, 1>(true); }
template<bool object> static void msgp(bool names, size_t size, int first = -1, int second = -1) { PMsgPack a, b; uint32_t n = 1 + (uint32_t) vf_u8("elements"); a.scope_stack.emplace(object ? Type::Object : Type::Array, n); a.scope = &a.scope_stack.top(); b.scope_stack.emplace(object ? Type::Object : Type::Array, n); b.scope = &b.scope_stack.top(); parse(a, b, names, size, first, second); }
VF_ENTRY(vf_parse_msgpack_array) { msgp<false>(false, 6); }
VF_ENTRY(vf_parse_msgpack_names) { msgp<true>(true, 5, 0xa2); }
VF_ENTRY(vf_parse_msgpack_names8) { msgp<true>(true, 5, 0xd9, 2); }
VF_ENTRY(vf_parse_msgpack_values) { msgp<true>(false, 5, 0xa1); }
VF_ENTRY(vf_parse_msgpack_unusable) { msgp<true>(false, 3, 5); }
/* JSON: a text with one arbitrary character; strtod is some function of the token */
extern "C" double stub_strtod(const char *t, char **end) { double d = 0; size_t n = 0; for(; t[n]; n++) d = d * 2 + 1; *end = (char *) t + ((n & 1) ? n : 0); return d; }
static void json(const char *open, const char *text, bool names) {
    PJson a, b; size_t n = strlen(text), at = (size_t) vf_concrete(vf_size("at", n)); for(PJson *p : { &a, &b }) { Lib::In in; in.set(Lib::In::Source((const uint8_t *) open, strlen(open))); p->read(in); }
    Short s(n); vf_assume(N == n || N + 1 == n); for(size_t i = 0; i < N; i++) if(i != at) vf_assume(T[i] == (uint8_t) text[i]); vf_assume(at >= N || T[at] < 128);
    Lib::In mem; mem.set(Lib::In::Source(T, N)); Result m = item(a, mem), r = item(b, s.in);
    vf_assert(m.ok == r.ok, "both or neither reject"); if(!m.ok) { vf_reach("rejected"); return; }
    vf_assert(s.at() == (size_t)(mem.pos - T), "as far"); auto &x = m.v, &y = r.v; vf_assert(x.second.type() == y.second.type() && x.second.size() == y.second.size() && x.first.size == y.first.size, "the same item"); vf_reach("read");
    vf_assert(memcmp(x.first.ptr, y.first.ptr, x.first.size) == 0, "the same name"); if(x.second.type() == Type::String) vf_assert(memcmp(x.second.data(), y.second.data(), x.second.size()) == 0, "the same text"); else vf_assert(x.second.pblock().ui64 == y.second.pblock().ui64, "the same value");
}
VF_ENTRY(vf_parse_json_member) { json("{", "\"ab\": \"x\",", true); }
VF_ENTRY(vf_parse_json_escape) { json("{", "\"a\\n\":\"x\\ty\"}", true); }
VF_ENTRY(vf_parse_json_number) { json("[", " -17 ,", false); }
VF_ENTRY(vf_parse_json_comment) { json("[", "/* x */ true]", false); }
#endif
