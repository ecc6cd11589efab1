/* C05 / C06: MessagePack scalars, strings, blobs and container headers. */
#include "vf.h"
#include "src/lib/PMsgPack.cpp"
#include "vfutil.h"

/* ---- independent reading of the MessagePack specification ---- */
enum Cls { Bad, Nil, Bool, UInt, Int, F32, F64, Str, Bin, Arr, Map };
struct Item { Cls c; uint64_t v; size_t len; };     /* header length; v = payload (for Str.. the size) */
static uint64_t be(const uint8_t *p, size_t n) { uint64_t r = 0; for(size_t i = 0; i < n; i++) r = r << 8 | p[i]; return r; }
static Item num(const uint8_t *b, size_t n, Cls c, size_t k, bool sg) {
    if(n < 1 + k) return { Bad, 0, 0 };
    uint64_t v = be(b + 1, k);
    if(sg) v = (uint64_t)((int64_t)(v << (64 - 8 * k)) >> (64 - 8 * k));
    return { c, v, 1 + k };
}
static Item spec(const uint8_t *b, size_t n) {
    if(n < 1) return { Bad, 0, 0 };
    uint8_t p = b[0];
    if(p <= 0x7f) return { UInt, p, 1 };
    if(p <= 0x8f) return { Map, (uint64_t) p & 15, 1 };
    if(p <= 0x9f) return { Arr, (uint64_t) p & 15, 1 };
    if(p <= 0xbf) return { Str, (uint64_t) p & 31, 1 };
    if(p >= 0xe0) return { Int, (uint64_t)(int64_t)(int8_t) p, 1 };
    switch(p) {
    case 0xc0: return { Nil, 0, 1 };
    case 0xc2: return { Bool, 0, 1 };
    case 0xc3: return { Bool, 1, 1 };
    case 0xc4: return num(b, n, Bin, 1, false);
    case 0xc5: return num(b, n, Bin, 2, false);
    case 0xc6: return num(b, n, Bin, 4, false);
    case 0xca: return num(b, n, F32, 4, false);
    case 0xcb: return num(b, n, F64, 8, false);
    case 0xcc: return num(b, n, UInt, 1, false);
    case 0xcd: return num(b, n, UInt, 2, false);
    case 0xce: return num(b, n, UInt, 4, false);
    case 0xcf: return num(b, n, UInt, 8, false);
    case 0xd0: return num(b, n, Int, 1, true);
    case 0xd1: return num(b, n, Int, 2, true);
    case 0xd2: return num(b, n, Int, 4, true);
    case 0xd3: return num(b, n, Int, 8, true);
    case 0xd9: return num(b, n, Str, 1, false);
    case 0xda: return num(b, n, Str, 2, false);
    case 0xdb: return num(b, n, Str, 4, false);
    case 0xdc: return num(b, n, Arr, 2, false);
    case 0xdd: return num(b, n, Arr, 4, false);
    case 0xde: return num(b, n, Map, 2, false);
    case 0xdf: return num(b, n, Map, 4, false);
    default: return { Bad, 0, 0 };
    }
}
static bool is_int(const Value &v) { return v.type() != Type::Bool && TpTools::is_num(v.type()) && TpTools::is_integral(v.type()); }
/* does the value delivered denote the scalar item */
static bool denotes(const Value &v, const Item &i) {
    switch(i.c) {
    case Nil: return v.type() == Type::Null;
    case Bool: return (v.type() == Type::Bool) & (v.block.ui64 == i.v);
    case UInt: if(!is_int(v)) return false;
               return TpTools::is_signed(v.type()) ? (v.block.i64 >= 0) & (v.block.ui64 == i.v) : v.block.ui64 == i.v;
    case Int: { if(!is_int(v)) return false;
              int64_t s = (int64_t) i.v;
              return TpTools::is_signed(v.type()) ? v.block.i64 == s : (s >= 0) & (v.block.ui64 == i.v); }
    case F32: { float f; uint32_t w = (uint32_t) i.v; memcpy(&f, &w, 4);
              if(v.type() == Type::FP32) return f != f ? v.block.fp32 != v.block.fp32 : memcmp(&v.block.fp32, &f, 4) == 0;
              if(v.type() == Type::FP64) return f != f ? v.block.fp64 != v.block.fp64 : (v.block.fp64 == (double) f);
              return false; }
    case F64: { double f; memcpy(&f, &i.v, 8);
              double d = v.type() == Type::FP32 ? (double) v.block.fp32 : v.block.fp64;
              if(v.type() != Type::FP32 && v.type() != Type::FP64) return false;
              return f != f ? d != d : memcmp(&d, &f, 8) == 0; }
    default: return false;
    }
}
/* value written: does the item denote it */
template<class T> static bool written(const Item &i, T x) {
    if(std::is_same<T, bool>::value) return (i.c == Cls::Bool) & (i.v == (uint64_t) x);
    if(std::is_floating_point<T>::value) {
        double d = x, e;
        if(i.c == F32) { float f; uint32_t w = (uint32_t) i.v; memcpy(&f, &w, 4); e = f; }
        else if(i.c == F64) memcpy(&e, &i.v, 8);
        else return false;
        return d != d ? e != e : memcmp(&d, &e, 8) == 0;
    }
    if(i.c == UInt) return (x >= (T) 0) & (i.v == (uint64_t) x);
    if(i.c == Int) return std::is_signed<T>::value ? (int64_t) i.v == (int64_t) x : ((int64_t) i.v >= 0) & (i.v == (uint64_t) x);
    return false;
}
static void enter(PMsgPack &p, Type t, size_t n) { p.scope_stack.emplace(t, n); p.scope = &p.scope_stack.top(); }

template<class T> struct Any;
#define ANY(T, FN) template<> struct Any<T> { static T get() { return (T) FN; } };
ANY(int8_t, vf_u8("x")) ANY(uint8_t, vf_u8("x")) ANY(int16_t, vf_u16("x")) ANY(uint16_t, vf_u16("x")) ANY(int32_t, vf_u32("x")) ANY(uint32_t, vf_u32("x"))
ANY(int64_t, vf_u64("x")) ANY(uint64_t, vf_u64("x")) ANY(bool, vf_bool("x")) ANY(float, vf_f32("f_x")) ANY(double, vf_f64("f_x"))

/* ---------------------------------------------------------------- C05 write */
template<class T> static void wr(int sc) {
    T x = Any<T>::get();
    PMsgPack w; if(sc) enter(w, Type::Array, 0);
    Buf o; w.write(Value(x), MemBlock(), o.out); o.flush();
    Item i = spec(o.data(), o.size());
    vf_reach("written");
    vf_assert(i.len == o.size(), "exactly one MessagePack item is written");
    vf_assert(written<T>(i, x), "the item written denotes the value");
    if(sc) vf_assert(w.scope->elements == 1, "the element is counted");
}
#define WR(N, T) VF_ENTRY(vf_wr_##N) { wr<T>((int) vf_concrete(vf_bool("sc"))); }
WR(i8, int8_t) WR(u8, uint8_t) WR(i16, int16_t) WR(u16, uint16_t) WR(i32, int32_t) WR(u32, uint32_t) WR(i64, int64_t) WR(u64, uint64_t) WR(bool, bool) WR(f32, float) WR(f64, double)
VF_ENTRY(vf_wr_null) {
    PMsgPack w; Buf o; w.write(Value(Type::Null), MemBlock(), o.out); o.flush();
    Item i = spec(o.data(), o.size());
    vf_reach("written");
    vf_assert((i.len == o.size()) & (i.c == Nil), "null is written as nil");
}
/* ---------------------------------------------------------------- C05 read */
VF_ENTRY(vf_rd_scalar) {
    size_t n = vf_size("n", (size_t) 1 << 40); uint8_t *b = vf_bytes("b", n);
    int sc = (int) vf_concrete(vf_bool("sc"));
    Item i = spec(b, n);
    vf_assume(!((i.c == Str) | (i.c == Bin) | (i.c == Arr) | (i.c == Map)));
    PMsgPack p; if(sc) enter(p, Type::Array, 7);
    Rd r(b, n); bool ok = true;
    try {
        auto pr = p.read(r.in);
        vf_reach("accepted");
        vf_assert(i.c != Bad, "a truncated item or an unsupported prefix is rejected");
        vf_assert(denotes(pr.second, i), "the value read is the one the specification assigns");
        vf_assert(r.used() == i.len, "exactly the item is consumed");
        vf_assert(pr.first.size == 0, "no name appears");
    } catch(Srl::Exception &) { ok = false; }
    if(!ok) { vf_reach("rejected"); vf_assert(i.c == Bad, "every scalar encoding is accepted"); }
    else if(sc) vf_assert(p.scope->elements == 6, "the element is counted");
}

/* ---------------------------------------------------------------- C06 */
static void wr_block(bool str) {
    size_t n = vf_size("n", 0xffffffff); uint8_t *b = vf_bytes("b", n);
    size_t g = vf_u64("g"); vf_assume(g < n); vf_term(g);
    PMsgPack w; Buf o; w.write(Value(MemBlock(b, n), str ? Type::String : Type::Binary), MemBlock(), o.out); o.flush();
    Item i = spec(o.data(), o.size());
    vf_reach("written");
    vf_assert(i.c == (str ? Str : Bin), "the header is of the right kind");
    vf_assert(i.v == n, "the header carries the exact length");
    vf_assert(o.size() == i.len + n, "header and payload, nothing else");
    vf_assert(o.data()[i.len + g] == b[g], "the payload is the data");
}
VF_ENTRY(vf_wr_str) { wr_block(true); }
VF_ENTRY(vf_wr_bin) { wr_block(false); }
VF_ENTRY(vf_wr_name) {
    size_t n = vf_size("n", 0xffffffff); uint8_t *b = vf_bytes("b", n);
    size_t g = vf_u64("g"); vf_assume(g < n); vf_term(g);
    PMsgPack w; enter(w, Type::Object, 0);
    Buf o; w.write(Value(true), MemBlock(b, n), o.out); o.flush();
    Item i = spec(o.data(), o.size());
    vf_reach("written");
    vf_assert((i.c == Str) & (i.v == n), "the name is a string of the exact length");
    vf_assert(o.size() == i.len + n + 1, "name and value, nothing else");
    vf_assert((o.data()[i.len + g] == b[g]) & (o.data()[i.len + n] == 0xc3), "the name is followed by the value");
    vf_assert(w.scope->elements == 1, "the element is counted");
}
/* container: header with any count of elements */
static void wr_scope(Type t) {
    PMsgPack w; Buf o; int outer = (int) vf_concrete(vf_u8("outer") % 3);
    uint32_t k0 = vf_u32("k0");
    if(outer) enter(w, outer == 1 ? Type::Array : Type::Object, k0);
    size_t pre = 0;
    o.out.write_byte(7); pre = 1;
    w.write(Value(t), MemBlock(), o.out);
    size_t name = outer == 2 ? 1 : 0;
    vf_assert(w.scope_stack.size() == (outer ? 2 : 1) && w.scope->type == t, "the new scope is open");
    uint32_t k = vf_u32("k");
    w.scope->elements = k;            /* any number of elements written in between, each counted once (vf_wr_*) */
    uint8_t x = vf_u8("x"); o.out.write_byte(x);
    w.write(Value(Type::Scope_End), MemBlock(), o.out); o.flush();
    vf_reach("written");
    vf_assert(o.size() == pre + name + 5 + 1, "container header and content, nothing else");
    Item i = spec(o.data() + pre + name, o.size() - pre - name);
    vf_assert(name == 0 || o.data()[1] == 0xa0, "empty name");
    vf_assert(i.c == (t == Type::Array ? Arr : Map), "the header is of the right kind");
    vf_assert(i.v == k, "the header carries the exact element count");
    vf_assert((o.data()[0] == 7) & (o.data()[pre + name + i.len] == x), "content follows the header");
    vf_assert(w.scope_stack.size() == (outer ? 1 : 0), "the scope is closed");
    vf_assert(outer ? w.scope == &w.scope_stack.top() && w.scope->elements == (uint32_t)(k0 + 1) : w.scope == nullptr, "the enclosing scope continues, the container counts once");
}
VF_ENTRY(vf_wr_array) { wr_scope(Type::Array); }
VF_ENTRY(vf_wr_map) { wr_scope(Type::Object); }

VF_ENTRY(vf_rd_block) {
    size_t n = vf_size("n", (size_t) 1 << 40); uint8_t *b = vf_bytes("b", n);
    Item i = spec(b, n);
    vf_assume((i.c == Str) | (i.c == Bin));
    PMsgPack p; Rd r(b, n); bool ok = true;
    bool fits = i.v <= n - i.len;
    try {
        auto pr = p.read(r.in);
        vf_reach("accepted");
        vf_assert(fits, "a block longer than the input is rejected");
        vf_assert(pr.second.type() == (i.c == Str ? Type::String : Type::Binary), "the kind is kept");
        vf_assert(pr.second.size() == i.v, "exactly the announced number of bytes is delivered");
        vf_assert(pr.second.data() == b + i.len, "the bytes are those after the header");
        vf_assert(r.used() == i.len + i.v, "exactly the item is consumed");
    } catch(Srl::Exception &) { ok = false; }
    if(!ok) { vf_reach("rejected"); vf_assert(!fits, "a complete item is accepted"); }
}
VF_ENTRY(vf_rd_scope) {
    size_t n = vf_size("n", (size_t) 1 << 40); uint8_t *b = vf_bytes("b", n);
    Item i = spec(b, n);
    vf_assume((i.c == Arr) | (i.c == Map));
    int outer = (int) vf_concrete(vf_bool("outer"));
    PMsgPack p; if(outer) enter(p, Type::Array, 3);
    Rd r(b, n); bool ok = true;
    try {
        auto pr = p.read(r.in);
        vf_reach("accepted");
        vf_assert(pr.second.type() == (i.c == Arr ? Type::Array : Type::Object), "the kind is kept");
        vf_assert(p.scope_stack.size() == (outer ? 2 : 1) && p.scope == &p.scope_stack.top(), "the scope is open");
        vf_assert(p.scope->elements == i.v, "the scope expects exactly the announced number of elements");
        vf_assert(p.scope->type == pr.second.type(), "the scope is of that kind");
        vf_assert(r.used() == i.len, "exactly the header is consumed");
        if(outer) { p.scope_stack.pop(); vf_assert(p.scope_stack.top().elements == 2, "the container counts once"); }
    } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok, "every container header is accepted");
}
/* closing: a scope with no element left is closed without reading, one with elements left reads one */
VF_ENTRY(vf_rd_close) {
    uint32_t k = vf_u32("k"), k0 = vf_u32("k0");
    int outer = (int) vf_concrete(vf_bool("outer")), map = (int) vf_concrete(vf_bool("map"));
    uint8_t b[2] = { 0xa0, 5 };
    PMsgPack p; if(outer) enter(p, Type::Array, k0);
    enter(p, map ? Type::Object : Type::Array, k);
    Rd r(b, 2);
    auto pr = p.read(r.in);
    if(k == 0) {
        vf_reach("closed");
        vf_assert(pr.second.type() == Type::Scope_End, "a scope without elements left closes");
        vf_assert(r.used() == 0, "closing consumes nothing");
        vf_assert(p.scope_stack.size() == (outer ? 1 : 0), "exactly one scope closes");
        vf_assert(outer ? p.scope == &p.scope_stack.top() && p.scope->elements == k0 : p.scope == nullptr, "the enclosing scope continues");
    } else {
        vf_reach("element");
        vf_assert(pr.second.type() != Type::Scope_End, "a scope with elements left does not close");
        vf_assert(p.scope->elements == k - 1, "one element fewer remains");
        vf_assert(r.used() == (map ? 2 : 1), "one element is consumed");
    }
}
/* element of a map: any key followed by any value (value kinds are split off below) */
static void member(const uint8_t *b, size_t n, bool anyval) {
    uint32_t k = vf_u32("k"); vf_assume(k > 0);
    PMsgPack p; enter(p, Type::Object, k);
    Item i = spec(b, n);
    size_t kl = 0; bool good = false;
    if(i.c == Str) { if(i.v <= n - i.len) { kl = i.len + i.v; good = true; } }
    else if(i.c != Bad && i.c != Bin && i.c != Arr && i.c != Map) { kl = i.len; good = true; }
    if(!anyval && good && kl < n) vf_assume(b[kl] == 0xc3);
    Rd r(b, n); bool ok = true;
    try {
        auto pr = p.read(r.in);
        vf_reach("accepted");
        vf_assert(good, "a malformed key is rejected");
        if(i.c == Str) vf_assert((pr.first.size == i.v) && (pr.first.ptr == b + i.len), "the name is the key string");
        Item v = spec(b + kl, n - kl);
        vf_assert(v.c != Bad, "a malformed value is rejected");
        if(v.c == Str || v.c == Bin) {
            vf_assert((pr.second.type() == (v.c == Str ? Type::String : Type::Binary)) & (pr.second.size() == v.v) && pr.second.data() == b + kl + v.len, "block value exact");
            vf_assert(r.used() == kl + v.len + v.v, "key and value are consumed");
        } else {
            if(v.c == Arr || v.c == Map) vf_assert((pr.second.type() == (v.c == Arr ? Type::Array : Type::Object)) && p.scope->elements == v.v, "container value exact");
            else vf_assert(denotes(pr.second, v), "scalar value exact");
            vf_assert(r.used() == kl + v.len, "key and value are consumed");
        }
    } catch(Srl::Exception &) { ok = false; }
    if(!ok) { vf_reach("rejected"); if(i.c == Str && good) { Item v = spec(b + kl, n - kl); vf_assert(v.c == Bad || ((v.c == Str || v.c == Bin) && v.v > n - kl - v.len), "a complete member is accepted"); } }
}
VF_ENTRY(vf_rd_member_key) {
    size_t n = vf_size("n", (size_t) 1 << 40); uint8_t *b = vf_bytes("b", n);
    member(b, n, false);
}
VF_ENTRY(vf_rd_member_value) {
    size_t n = vf_size("n", (size_t) 1 << 40); uint8_t *b = vf_bytes("b", n);
    vf_assume(n >= 3); vf_assume(b[0] == 0xa1 + 0);
    member(b, n, true);
}
