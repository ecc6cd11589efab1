/* C02 / C03: native format, scalars and variable-length integers. */
#include "vf.h"
#include "src/lib/PSrl.cpp"
#include "vfutil.h"

/* ---------------------------------------------------------------- C03 */
VF_ENTRY(vf_varint_roundtrip) {
    uint64_t x = vf_u64("x");
    Buf o; encode_integer(x, o.out); o.flush();
    vf_assert((o.size() >= 1) & (o.size() <= 10), "an encoded number takes one to ten bytes");
    uint64_t y = 0; size_t used = 0;
    Rd r(o.data(), o.size());
    bool ok = true;
    try { y = decode_integer(r.in); used = r.used(); } catch(Srl::Exception &) { ok = false; }
    vf_reach("decoded");
    vf_assert(ok, "an encoded number is accepted");
    vf_assert(y == x, "an encoded number decodes to itself");
    vf_assert(used == o.size(), "decoding consumes exactly the encoding");
}
/* any byte sequence: the decoder returns the number its groups denote or rejects it */
static void decode_any(size_t max) {
    size_t n = vf_size("n", max);
    uint8_t *b = vf_bytes("b", n);
    /* specification: first byte below 128 ends the number; groups are 7 bits, low first */
    uint64_t val = 0; bool over = false, end = false; size_t len = 0;
    for(size_t i = 0; i < 12 && i < n && !end; i++) {
        uint64_t g = b[i] & 127;
        if(i >= 10 || (i == 9 && g > 1)) { if(g) over = true; if(i >= 10) over = true; }
        else val |= g << (7 * i);
        len = i + 1; end = b[i] < 128;
    }
    uint64_t y = 0; size_t used = 0; bool ok = true;
    Rd r(b, n);
    try { y = decode_integer(r.in); used = r.used(); } catch(Srl::Exception &) { ok = false; }
    if(ok) {
        vf_reach("accepted");
        vf_assert(end & !over, "an unterminated, over-long or overflowing encoding is rejected");
        vf_assert(y == val, "the decoded number is the one denoted by the groups");
        vf_assert(used == len, "no byte after the terminating one is consumed");
    } else {
        vf_reach("rejected");
        bool minimal = end && (len == 1 || b[len - 1] != 0);
        vf_assert(!minimal | over, "the standard encoding of a 64-bit number is accepted");
    }
}
VF_ENTRY(vf_varint_any) { decode_any((size_t) 1 << 40); }

/* ---------------------------------------------------------------- C02 */
template<class T> struct Any;
#define ANY(T, FN) template<> struct Any<T> { static T get() { return (T) FN; } };
ANY(int8_t, vf_u8("x")) ANY(uint8_t, vf_u8("x")) ANY(int16_t, vf_u16("x")) ANY(uint16_t, vf_u16("x")) ANY(int32_t, vf_u32("x")) ANY(uint32_t, vf_u32("x"))
ANY(int64_t, vf_u64("x")) ANY(uint64_t, vf_u64("x")) ANY(bool, vf_bool("x")) ANY(float, vf_f32("f_x")) ANY(double, vf_f64("f_x"))

/* scope: 0 none, 1 array, 2 object */
static void scope_of(PSrl &p, int s) { if(s) p.push_scope(s == 1 ? Type::Array : Type::Object); }
template<class T> static bool same(const Value &v, T x) {
    if(std::is_same<T, bool>::value) return (v.type() == Type::Bool) & (v.block.ui64 == (uint64_t) x);
    if(std::is_floating_point<T>::value) {
        double d = x;
        if(v.type() == Type::FP32) { double w = v.block.fp32; return d != d ? w != w : memcmp(&w, &d, 8) == 0; }
        if(v.type() == Type::FP64) { double w = v.block.fp64; return d != d ? w != w : memcmp(&w, &d, 8) == 0; }
        return false;
    }
    bool sg = TpTools::is_num(v.type()) && TpTools::is_integral(v.type()) && TpTools::is_signed(v.type());
    bool us = TpTools::is_num(v.type()) && TpTools::is_integral(v.type()) && !TpTools::is_signed(v.type());
    if(v.type() == Type::Bool) return false;
    bool neg = x < (T) 0;
    if(us) return !neg & (v.block.ui64 == (uint64_t) x);
    if(sg) return (v.block.i64 < 0) == neg && v.block.i64 == (int64_t) x;
    return false;
}
template<class T> static void rt(int scope, size_t extra) {
    T x = Any<T>::get();
    PSrl w, r; scope_of(w, scope); scope_of(r, scope);
    Buf o; Value in(x);
    w.write(in, MemBlock(), o.out);
    for(size_t i = 0; i < extra; i++) { uint8_t t = vf_u8("trail"); o.out.write_byte(t); }
    o.flush();
    Rd src(o.data(), o.size());
    bool ok = true;
    try {
        auto p = r.read(src.in);
        vf_reach("read back");
        vf_assert(same<T>(p.second, x), "the value read is the value written");
        vf_assert(p.first.size == 0, "no name appears");
        vf_assert(src.used() == o.size() - extra, "exactly the bytes written are consumed");
    } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok, "what was written is accepted");
    vf_assert((w.scope == r.scope) & (w.scope_stack.size() == r.scope_stack.size()), "a scalar leaves the scope alone");
}
#define RT(N, T) VF_ENTRY(vf_rt_##N) { int s = (int) vf_concrete(vf_u8("s") % 3); rt<T>(s, 1); } VF_ENTRY(vf_rt0_##N) { rt<T>(0, 0); }
RT(i8, int8_t) RT(u8, uint8_t) RT(i16, int16_t) RT(u16, uint16_t) RT(i32, int32_t) RT(u32, uint32_t) RT(i64, int64_t) RT(u64, uint64_t) RT(bool, bool) RT(f32, float) RT(f64, double)
VF_ENTRY(vf_rt_null) {
    PSrl w, r; int s = (int) vf_concrete(vf_u8("s") % 3); scope_of(w, s); scope_of(r, s);
    Buf o; w.write(Value(Type::Null), MemBlock(), o.out); o.flush();
    Rd src(o.data(), o.size());
    bool ok = true;
    try {
        auto p = r.read(src.in);
        vf_reach("read back");
        vf_assert(p.second.type() == Type::Null, "null is read as null");
        vf_assert(src.used() == o.size(), "exactly the bytes written are consumed");
    } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok, "what was written is accepted");
}
