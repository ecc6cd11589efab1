/* C01: numeric restore is exact or rejected. */
#include "vf.h"
#include "Srl/Srl.h"
#include "Srl/Lib.h"
using namespace Srl;
using namespace Lib;

/* ---- representation invariant of a stored scalar: the integer slot holds the value
 *      sign- or zero-extended from its declared type */
static Value mk(Type t) {
    Value v(t);
    v.block.size = (uint32_t) TpTools::get_size(t);
    v.block.stored_local = true;
    v.block.ui64 = 0;
    return v;
}
template<class S> struct Src;
#define INT_SRC(S, TP, FN) template<> struct Src<S> { static Value make(S &x) { Value v = mk(Type::TP); x = (S) FN("x"); if(std::is_signed<S>::value) v.block.i64 = (int64_t) x; else v.block.ui64 = (uint64_t) x; return v; } };
INT_SRC(int8_t, I8, vf_u8) INT_SRC(uint8_t, UI8, vf_u8) INT_SRC(int16_t, I16, vf_u16) INT_SRC(uint16_t, UI16, vf_u16)
INT_SRC(int32_t, I32, vf_u32) INT_SRC(uint32_t, UI32, vf_u32) INT_SRC(int64_t, I64, vf_u64) INT_SRC(uint64_t, UI64, vf_u64)
INT_SRC(bool, Bool, vf_bool)
template<> struct Src<float> { static Value make(float &x) { Value v = mk(Type::FP32); x = vf_f32("f_x"); v.block.fp32 = x; return v; } };
template<> struct Src<double> { static Value make(double &x) { Value v = mk(Type::FP64); x = vf_f64("f_x"); v.block.fp64 = x; return v; } };

/* does the integer x fit T, compared as mathematical integers */
template<class T, class S> static bool fits(S x) {
    typedef std::numeric_limits<T> L;
    if(std::is_signed<S>::value) {
        int64_t v = (int64_t) x;
        bool lo = std::is_signed<T>::value ? v >= (int64_t) L::lowest() : v >= 0;
        bool hi = std::is_signed<T>::value || sizeof(T) < 8 ? v <= (int64_t) L::max() : true;
        return lo & hi;
    }
    return (uint64_t) x <= (uint64_t) L::max();
}
static double p2(int n) { double r = 1; for(int i = 0; i < n; i++) r *= 2; return r; }

template<class T> static void sentinel(T &t) { memset(&t, 0x5a, sizeof t); }
template<> void sentinel<bool>(bool &t) { t = true; }
template<class T> static bool untouched(const T &t) { T s; sentinel(s); return memcmp(&t, &s, sizeof t) == 0; }

/* integer (or bool) source -> integer destination */
template<class T, class S> static void int_int() {
    S x; Value v = Src<S>::make(x);
    T t; sentinel(t);
    bool ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    if(ok) vf_reach("accept");
    vf_assert(ok == fits<T, S>(x), "integer to integer: accepted exactly when representable");
    if(ok) vf_assert(t == (T) x, "integer to integer: exact value");
    else vf_assert(untouched(t), "rejected value leaves the destination alone");
}
template<class S> static void int_bool() {
    S x; Value v = Src<S>::make(x);
    bool t = true, ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    bool is01 = (x == (S) 0) | (x == (S) 1);
    vf_assert(ok == is01, "integer to bool: accepted exactly for 0 and 1");
    if(ok) { vf_reach("accept"); vf_assert(t == (x != (S) 0), "integer to bool: exact value"); }
    else vf_assert(t == true, "rejected value leaves the destination alone");
}
template<class T, class S> static void int_fp() {
    S x; Value v = Src<S>::make(x);
    T t; sentinel(t);
    bool ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    vf_assert(ok, "integer to floating point: always accepted");
    if(ok) { vf_reach("accept"); T want = (T) x; vf_assert(memcmp(&t, &want, sizeof t) == 0, "integer to floating point: nearest value"); }
}
template<class T, class S> static void fp_int() {
    S x; Value v = Src<S>::make(x);
    T t; sentinel(t);
    bool ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    typedef std::numeric_limits<T> L;
    double d = (double) x;
    double hi = p2(L::digits);                                  /* first integer above the range */
    double lo = std::is_signed<T>::value ? -p2(L::digits) : 0.0;
    bool nan = d != d;
    bool in = !nan & (std::is_signed<T>::value && sizeof(T) < 8 ? d > lo - 1.0 : std::is_signed<T>::value ? d >= lo : d > -1.0) & (d < hi);
    if(ok) {
        vf_reach("accept");
        vf_assert(in, "floating point to integer: out of range, infinite or NaN is rejected");
        if(in) vf_assert(t == (T) d, "floating point to integer: truncated value");
    } else {
        vf_assert(untouched(t), "rejected value leaves the destination alone");
        /* a value that lies within the destination's range must be accepted */
        bool must = !nan & (d >= lo) & (d <= (sizeof(T) < 8 ? (double) L::max() : hi)) & (d < hi);
        vf_assert(!must, "floating point to integer: a value in range is accepted");
    }
}
template<class S> static void fp_bool() {
    S x; Value v = Src<S>::make(x);
    bool t = true, ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    double d = (double) x;
    bool in = (d == d) & (d > -1.0) & (d < 2.0);
    if(ok) vf_assert(in, "floating point to bool: out of range or NaN is rejected");
    if((d == 0.0) | (d == 1.0)) { vf_assert(ok, "floating point to bool: 0 and 1 accepted"); if(ok) { vf_reach("accept"); vf_assert(t == (d != 0.0), "floating point to bool: exact value"); } }
    if(!ok) vf_assert(t == true, "rejected value leaves the destination alone");
}
template<class T, class S> static void fp_fp() {
    S x; Value v = Src<S>::make(x);
    T t; sentinel(t);
    bool ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    if(ok) {
        vf_reach("accept");
        if(x != x) vf_assert(t != t, "NaN stays NaN");
        else { T want = (T) x; vf_assert(memcmp(&t, &want, sizeof t) == 0, "floating point to floating point: nearest value"); }
    } else {
        vf_assert(untouched(t), "rejected value leaves the destination alone");
        vf_assert(sizeof(T) < sizeof(S), "widening is always accepted");
        double lim = (double) std::numeric_limits<T>::max(), d = (double) x;
        vf_assert(!((d >= -lim) & (d <= lim)), "a value in range is accepted");
    }
}
/* constructor from a number followed by restore into the same type */
template<class T> static void ctor(T x) {
    Value v(x);
    T t; sentinel(t);
    bool ok = true;
    try { v.paste(t); } catch(Srl::Exception &) { ok = false; }
    vf_reach("ctor");
    vf_assert(ok, "a value restores into its own type");
    if(x != x) vf_assert(t != t, "NaN stays NaN");
    else vf_assert(memcmp(&t, &x, sizeof t) == 0, "a value restores unchanged into its own type");
}
/* Null source and non-scalar sources */
template<class T> static void misc() {
    T t; sentinel(t);
    bool ok = true;
    Value n(Type::Null);
    try { n.paste(t); } catch(Srl::Exception &) { ok = false; }
    vf_reach("null");
    vf_assert(ok & (t == T()), "null restores as zero");
    uint8_t k = vf_u8("k"); vf_assume(k <= 3);
    static const Type tps[] = { Type::Binary, Type::Object, Type::Array, Type::Scope_End };
    uint8_t mem[4] = { 1, 2, 3, 4 };
    Value b(MemBlock(mem, 4), tps[k]);
    sentinel(t); ok = true;
    try { b.paste(t); } catch(Srl::Exception &) { ok = false; }
    vf_assert(!ok, "a value that is not a number is rejected");
    vf_assert(untouched(t), "rejected value leaves the destination alone");
}
#define E_INTS(T, N) \
  VF_ENTRY(vf_ii_##N##_i8) { int_int<T, int8_t>(); } VF_ENTRY(vf_ii_##N##_u8) { int_int<T, uint8_t>(); } \
  VF_ENTRY(vf_ii_##N##_i16) { int_int<T, int16_t>(); } VF_ENTRY(vf_ii_##N##_u16) { int_int<T, uint16_t>(); } \
  VF_ENTRY(vf_ii_##N##_i32) { int_int<T, int32_t>(); } VF_ENTRY(vf_ii_##N##_u32) { int_int<T, uint32_t>(); } \
  VF_ENTRY(vf_ii_##N##_i64) { int_int<T, int64_t>(); } VF_ENTRY(vf_ii_##N##_u64) { int_int<T, uint64_t>(); } \
  VF_ENTRY(vf_ii_##N##_b) { int_int<T, bool>(); } \
  VF_ENTRY(vf_fi_##N##_f) { fp_int<T, float>(); } VF_ENTRY(vf_fi_##N##_d) { fp_int<T, double>(); } \
  VF_ENTRY(vf_misc_##N) { misc<T>(); }
E_INTS(int8_t, i8) E_INTS(uint8_t, u8) E_INTS(int16_t, i16) E_INTS(uint16_t, u16)
E_INTS(int32_t, i32) E_INTS(uint32_t, u32) E_INTS(int64_t, i64) E_INTS(uint64_t, u64)
#define E_FP(T, N) \
  VF_ENTRY(vf_if_##N##_i8) { int_fp<T, int8_t>(); } VF_ENTRY(vf_if_##N##_u8) { int_fp<T, uint8_t>(); } \
  VF_ENTRY(vf_if_##N##_i16) { int_fp<T, int16_t>(); } VF_ENTRY(vf_if_##N##_u16) { int_fp<T, uint16_t>(); } \
  VF_ENTRY(vf_if_##N##_i32) { int_fp<T, int32_t>(); } VF_ENTRY(vf_if_##N##_u32) { int_fp<T, uint32_t>(); } \
  VF_ENTRY(vf_if_##N##_i64) { int_fp<T, int64_t>(); } VF_ENTRY(vf_if_##N##_u64) { int_fp<T, uint64_t>(); } \
  VF_ENTRY(vf_if_##N##_b) { int_fp<T, bool>(); } \
  VF_ENTRY(vf_ff_##N##_f) { fp_fp<T, float>(); } VF_ENTRY(vf_ff_##N##_d) { fp_fp<T, double>(); } \
  VF_ENTRY(vf_misc_##N) { misc<T>(); }
E_FP(float, f) E_FP(double, d)
VF_ENTRY(vf_ib_i8) { int_bool<int8_t>(); } VF_ENTRY(vf_ib_u8) { int_bool<uint8_t>(); }
VF_ENTRY(vf_ib_i16) { int_bool<int16_t>(); } VF_ENTRY(vf_ib_u16) { int_bool<uint16_t>(); }
VF_ENTRY(vf_ib_i32) { int_bool<int32_t>(); } VF_ENTRY(vf_ib_u32) { int_bool<uint32_t>(); }
VF_ENTRY(vf_ib_i64) { int_bool<int64_t>(); } VF_ENTRY(vf_ib_u64) { int_bool<uint64_t>(); }
VF_ENTRY(vf_ib_b) { int_bool<bool>(); }
VF_ENTRY(vf_fb_f) { fp_bool<float>(); } VF_ENTRY(vf_fb_d) { fp_bool<double>(); }
VF_ENTRY(vf_ctor) {
    uint8_t k = vf_u8("k"); uint64_t x = vf_u64("x");
    switch(k) {
    case 0: ctor<int8_t>((int8_t) x); break; case 1: ctor<uint8_t>((uint8_t) x); break;
    case 2: ctor<int16_t>((int16_t) x); break; case 3: ctor<uint16_t>((uint16_t) x); break;
    case 4: ctor<int32_t>((int32_t) x); break; case 5: ctor<uint32_t>((uint32_t) x); break;
    case 6: ctor<int64_t>((int64_t) x); break; case 7: ctor<uint64_t>(x); break;
    case 8: ctor<float>(vf_f32("f_x")); break; case 9: ctor<double>(vf_f64("f_x")); break;
    case 10: ctor<bool>((x & 1) != 0); break;
    default: vf_assume(false);
    }
}
