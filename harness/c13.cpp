/* C13: integers and their decimal text convert exactly. */
#include "vf.h"
#include "src/lib/ToolsStrConv.cpp"

/* canonical decimal text of the magnitude v in p[0..n) */
static void is_decimal(const uint8_t *p, size_t n, uint64_t v) {
    vf_assert(n >= 1 && n <= 20, "between 1 and 20 digits");
    if(v == 0) { vf_assert(n == 1 && p[0] == '0', "zero is a single digit"); return; }
    for(size_t i = n; i > 0; i--) {
        vf_assert(p[i - 1] == '0' + v % 10, "every digit is the right one");
        v /= 10;
        vf_assert((v != 0) == (i > 1), "no digit is missing and no zero leads");
    }
}
static void written(const Value &val, bool neg, uint64_t mag) {
    std::vector<uint8_t> out;
    size_t n = Tools::type_to_str(val, out);
    vf_assert(n <= out.size(), "text lies inside the buffer");
    vf_reach("written");
    if(neg) { vf_assert(n > 1 && out[0] == '-', "a negative number has a sign"); is_decimal(out.data() + 1, n - 1, mag); }
    else is_decimal(out.data(), n, mag);
}
template<class T> static void signed_(T v) { written(Value(v), v < 0, v < 0 ? 0 - (uint64_t)(int64_t) v : (uint64_t) v); }
VF_ENTRY(vf_write_u64) { uint64_t v = vf_u64("v"); written(Value(v), false, v); }
VF_ENTRY(vf_write_u32) { uint32_t v = vf_u32("v"); written(Value(v), false, v); }
VF_ENTRY(vf_write_u16) { uint16_t v = vf_u16("v"); written(Value(v), false, v); }
VF_ENTRY(vf_write_u8) { uint8_t v = vf_u8("v"); written(Value(v), false, v); }
VF_ENTRY(vf_write_i64) { signed_((int64_t) vf_u64("v")); }
VF_ENTRY(vf_write_i32) { signed_((int32_t) vf_u32("v")); }
VF_ENTRY(vf_write_i16) { signed_((int16_t) vf_u16("v")); }
VF_ENTRY(vf_write_i8) { signed_((int8_t) vf_u8("v")); }
/* a floating-point value that is a 64-bit signed integer is handed to the integer conversion (whose contract
   vf_write_i64 establishes); every other one to the floating-point formatter */
static int64_t g_i64; static bool g_called, g_fp;
extern "C" size_t stub_i64(const Value &v, std::vector<uint8_t> &) { g_called = true; g_i64 = v.pblock().i64; return 0; }
extern "C" int stub_dtoa(double, char *) { g_fp = true; return 0; }
template<class T> static void fp_(T d) {
    bool isint = d >= (T) -9223372036854775808.0 && d < (T) 9223372036854775808.0 && (T)(int64_t) d == d;
#ifdef VF_NATIVE
    std::vector<uint8_t> a, b;
    size_t m = Tools::type_to_str(Value(d), b);
    if(isint) {
        size_t n = Tools::type_to_str(Value((int64_t) d), a);
        vf_assert(n == m && memcmp(a.data(), b.data(), n) == 0, "written exactly like that integer");
    }
#else
    std::vector<uint8_t> b;
    g_called = g_fp = false;
    Tools::type_to_str(Value(d), b);
    vf_reach("written");
    if(isint) { vf_assert(g_called && !g_fp, "written as an integer"); vf_assert(g_i64 == (int64_t) d, "written exactly like that integer"); }
    else vf_assert(g_fp && !g_called, "everything else is left to the formatter");
#endif
}
VF_ENTRY(vf_fp_f64) { fp_<double>(vf_f64("f_v")); }
VF_ENTRY(vf_fp_f32) { fp_<float>(vf_f32("f_v")); }
/* the text goes into a buffer that already has contents: only its own bytes change */
VF_ENTRY(vf_write_reuse) {
    uint64_t v = vf_u64("v");
    std::vector<uint8_t> out(30, (uint8_t) 'x');
    size_t n = Tools::type_to_str(Value(v), out);
    vf_assert(out.size() == 30, "a buffer that is large enough is kept");
    is_decimal(out.data(), n, v);
    vf_assert(n <= 20 && out[n] == 'x' && out[29] == 'x', "nothing behind the text changes");
}

/* ---- reading: digit texts of any length ---- */
static bool r_neg;
static uint8_t digit_char(uint8_t raw, size_t i) { return i == 0 && r_neg ? '-' : '0' + (raw & 15) % 10; }
static uint64_t st_value(uint64_t a, uint64_t, uint64_t byte, uint64_t) { return a * 10 + (byte - '0'); }
static uint64_t st_over(uint64_t a, uint64_t over, uint64_t byte, uint64_t) { return over | (a > (UINT64_MAX - (byte - '0')) / 10); }
static void read_text(bool neg) {
    size_t n = vf_size("n", (size_t) 1 << 39);
    r_neg = neg;
    vf_assume(n > (neg ? 1 : 0));
    uint8_t *d = vf_map("d", n, digit_char);
    /* the number denoted, and whether it exceeds 64 bits */
    uint64_t over, v = vf_fold(d + neg, n - neg, 0, 0, st_value, st_over, &over);
    auto r = Tools::str_to_type(d, n, Type::Null);
    Type t = r.second.type();
    bool isint = r.first && (t == Type::UI64 || t == Type::I64);
    if(neg) {
        bool fits = !over && v <= (uint64_t) 1 << 63;
        if(isint) { vf_reach("integer"); vf_assert(fits, "a number below the 64-bit range is not read as an integer"); vf_assert(t == Type::I64 && r.second.pblock().i64 == (int64_t)(0 - v), "exactly the number"); }
        else { vf_reach("other"); vf_assert(!fits, "every number in the 64-bit range is read as an integer"); }
    } else {
        if(isint) { vf_reach("integer"); vf_assert(!over, "a number above the 64-bit range is not read as an integer"); vf_assert(t == Type::UI64 && r.second.pblock().ui64 == v, "exactly the number"); }
        else { vf_reach("other"); vf_assert(over, "every number in the 64-bit range is read as an integer"); }
    }
}
VF_ENTRY(vf_read_digits) { read_text(false); }
VF_ENTRY(vf_read_minus) { read_text(true); }
