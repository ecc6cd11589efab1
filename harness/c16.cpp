/* C16: the JSON reader delivers exactly what the text denotes. */
#include "vf.h"
#include "vfutil.h"
#include <cstdlib>
/* ---- strtod by contract: a number of the JSON grammar is converted completely, other text as the converter likes ---- */
static bool digit(uint8_t c) { return (uint8_t)(c - '0') < 10; }
enum Tok { Other, Int, Num };
static Tok number(const uint8_t *t, size_t n) {
    size_t i = 0; Tok k = Int;
    if(i < n && t[i] == '-') i++;
    if(i >= n || !digit(t[i])) return Other;
    if(t[i] == '0') i++; else while(i < n && digit(t[i])) i++;
    if(i < n && t[i] == '.') { k = Num; i++; if(i >= n || !digit(t[i])) return Other; while(i < n && digit(t[i])) i++; }
    if(i < n && (t[i] == 'e' || t[i] == 'E')) { k = Num; i++; if(i < n && (t[i] == '+' || t[i] == '-')) i++; if(i >= n || !digit(t[i])) return Other; while(i < n && digit(t[i])) i++; }
    return i == n ? k : Other;
}
#ifndef VF_NATIVE
static const uint8_t *Token; static size_t TokenLen; static double Fp; static bool asked, whole; static bool L_even(size_t n) { return n % 2 == 0; }
extern "C" double stub_strtod(const char *s, char **end) {
    size_t n = 0; while(s[n]) n++;
    vf_assert(n == TokenLen && memcmp(s, Token, n) == 0, "the token itself is converted"); asked = true; Fp = L_even(n) ? 2.5 : 0.1; /* one that is a float and one that is not */
    if(number(Token, TokenLen) != Other) { *end = (char *) s + n; whole = true; return Fp; }
    size_t k = vf_size("taken", 8); vf_assume(k <= n); uint8_t c = Token[0], d = (uint8_t)(Token[n > 1] | 32); vf_assume((k < n) | digit(c) | (c == '+') | (c == '-') | (c == '.') | (((c | 32) == 'i') & (d == 'n')) | (((c | 32) == 'n') & (d == 'a'))); k = (size_t) vf_concrete(k); whole = k == n; *end = (char *) s + k; return Fp;
}
#endif
static bool is(const uint8_t *t, size_t n, const char *s, size_t m) { return n == m && memcmp(t, s, n) == 0; }
/* with a capital initial the literals may be accepted, or not */
static bool isl(const uint8_t *t, size_t n, const char *s, size_t m) { return n == m && (t[0] | 32) == s[0] && memcmp(t + 1, s + 1, n - 1) == 0; }

static bool digits(const uint8_t *t, size_t n) { size_t i = n > 1 && t[0] == '-'; for(; i < n; i++) if(!digit(t[i])) return false; return true; }
static bool isfp(Type t) { return t == Type::FP64 || t == Type::FP32; }
/* ---- one unquoted token of L arbitrary characters, behind any delimiter ---- */
template<size_t L, bool object> static void token() {
    const uint8_t *t = vf_bytes("token", L); uint8_t x[32], dl = vf_u8("delimiter"); size_t n = 0; const char *head = object ? "{\"k\":" : "["; size_t h = object ? 5 : 1;
    for(size_t i = 0; i < L; i++) vf_assume(!((t[i] == ',') | (t[i] == ' ') | (t[i] == '\n') | (t[i] == '\t') | (t[i] == '\r') | (t[i] == ']') | (t[i] == '}') | (t[i] == '[') | (t[i] == '{') | (t[i] == '"') | (t[i] == ':') | (t[i] == '/') | (t[i] == 0) | (t[i] == 11) | (t[i] == 12)));
    vf_assume((dl == ',') | (dl == ' ') | (dl == (object ? '}' : ']')));
    for(size_t i = 0; i < h; i++) x[n++] = (uint8_t) head[i];
    for(size_t i = 0; i < L; i++) x[n++] = t[i];
    x[n++] = dl; x[n++] = ' '; x[n++] = object ? '}' : ']';
    PJson p; Rd r(x, n); p.read(r.in);
#ifndef VF_NATIVE
    Token = t; TokenLen = L; asked = whole = false;
#endif
    bool ok = true; std::pair<MemBlock, Value> v(MemBlock(), Type::Null);
    try { v = p.read(r.in); } catch(Srl::Exception &) { ok = false; }
    auto &b = v.second; Tok k = number(t, L);
    if(isl(t, L, "true", 4)) { vf_assert((!ok && t[0] < 'a') || (ok && b.type() == Type::Bool && b.pblock().ui64 == 1), "true"); if constexpr(L == 4) vf_reach("true"); }
    else if(isl(t, L, "false", 5)) { vf_assert((!ok && t[0] < 'a') || (ok && b.type() == Type::Bool && b.pblock().ui64 == 0), "false"); if constexpr(L == 5) vf_reach("false"); }
    else if(isl(t, L, "null", 4)) { vf_assert((!ok && t[0] < 'a') || (ok && b.type() == Type::Null), "null"); if constexpr(L == 4) vf_reach("null"); }
    else if(k == Int) {
        int64_t w = 0; for(size_t i = t[0] == '-'; i < L; i++) w = w * 10 + (t[i] - '0'); if(t[0] == '-') w = -w;
        vf_assert(ok && TpTools::is_num(b.type()) && TpTools::is_integral(b.type()) && b.pblock().i64 == w && (w >= 0 || TpTools::is_signed(b.type())), "an integer has exactly its value"); vf_reach("integer");
    }
#ifndef VF_NATIVE
    else if(k == Num) { if constexpr(L >= 3) { double d = b.type() == Type::FP64 ? b.pblock().fp64 : b.pblock().fp32; vf_assert(ok && asked && isfp(b.type()) && (d == Fp || Fp != Fp), "a number has the value the converter gives"); vf_reach("number"); } }
    else if(!ok) vf_reach("rejected");
    else vf_assert(b.type() == Type::String || (isfp(b.type()) && asked && whole) || (TpTools::is_num(b.type()) && digits(t, L)), "nothing else becomes a literal (numbers may have leading zeros or the notation of strtod)");
#endif
    if(ok) {
        vf_assert(object ? is(v.first.ptr, v.first.size, "k", 1) : v.first.size == 0, "the name of the member");
        if(dl != ',' && dl != ' ') { vf_assert(p.read(r.in).second.type() == Type::Scope_End, "the bracket behind the token still counts"); }
        else vf_assert(p.read(r.in).second.type() == Type::Scope_End && r.used() == n, "the scope closes behind the token");
    }
}
VF_ENTRY(vf_token1) { token<1, false>(); }
VF_ENTRY(vf_token2) { token<2, false>(); }
VF_ENTRY(vf_token3) { token<3, false>(); }
VF_ENTRY(vf_token4) { token<4, false>(); }
VF_ENTRY(vf_token5) { token<5, false>(); }
VF_ENTRY(vf_token_member4) { token<4, true>(); }

/* ---- documents: up to K items, any nesting, white space anywhere ---- */
struct Ev { uint8_t k; uint8_t name; uint8_t c; };
enum { Integer, True, False, Null, Str, Obj, Arr, End, Kinds };
static uint8_t D[128]; static size_t n, gap, gaps; static uint8_t wsc; static Ev want[24]; static size_t n_want;
static void add(const char *s, size_t k) { memcpy(D + n, s, k); n += k; }
static void sp() { if(gap == 99 || gaps == gap) D[n++] = wsc; gaps++; }
static void docs(bool root, int K, bool all) {
    bool st[12]; int d = 0; bool first = true; n = n_want = gaps = 0; wsc = vf_u8("white space"); vf_assume((wsc == ' ') | (wsc == '\n') | (wsc == '\t') | (wsc == '\r'));
    if(all) gap = 99; else { gap = vf_size("gap", 13); gap = (size_t) vf_concrete(gap); }
    sp(); add(root ? "{" : "[", 1); st[d++] = root; want[n_want++] = { (uint8_t)(root ? Obj : Arr), 0, 0 };
    for(int i = 0; d > 0; i++) {
        uint8_t k = End;
        if(i < K) { k = vf_u8("kind"); vf_assume(k < Kinds); k = (uint8_t) vf_concrete(k); }
        sp();
        if(k == End) { add(st[d - 1] ? "}" : "]", 1); d--; first = false; want[n_want++] = { End, 0, 0 }; continue; }
        if(!first) { add(",", 1); sp(); }
        uint8_t nm = 0, c = 0;
        if(st[d - 1]) { nm = (uint8_t)('a' + i); D[n++] = '"'; D[n++] = nm; D[n++] = '"'; sp(); D[n++] = ':'; sp(); }
        first = false;
        if(k == Integer) { c = vf_u8("digit"); vf_assume(c >= '0' && c <= '9'); D[n++] = c; }
        else if(k == True) add("true", 4); else if(k == False) add("false", 5); else if(k == Null) add("null", 4);
        else if(k == Str) { c = vf_u8("char"); vf_assume((c >= 32) & (c != '"') & (c != '\\')); D[n++] = '"'; D[n++] = c; D[n++] = '"'; }
        else { add(k == Obj ? "{" : "[", 1); st[d++] = k == Obj; first = true; }
        want[n_want++] = { k, nm, c };
    }
    PJson p; Rd r(D, n);
    for(size_t i = 0; i < n_want; i++) {
        auto e = p.read(r.in); auto &v = e.second; auto &w = want[i]; Type t = v.type();
        bool ok = w.k == True ? t == Type::Bool && v.pblock().ui64 == 1 : w.k == False ? t == Type::Bool && v.pblock().ui64 == 0 : w.k == Null ? t == Type::Null
            : w.k == Str ? t == Type::String && v.size() == 1 : w.k == Obj ? t == Type::Object : w.k == Arr ? t == Type::Array : w.k == End ? t == Type::Scope_End : TpTools::is_num(t) && TpTools::is_integral(t);
        vf_assert(ok, "the items of the text, in order");
        if(w.k == Str) vf_assert(v.data()[0] == w.c, "the characters of the text"); if(w.k == Integer) vf_assert(v.pblock().ui64 == (uint64_t)(w.c - '0'), "the number of the text");
        if(w.k != End) vf_assert(w.name ? e.first.size == 1 && e.first.ptr[0] == w.name : e.first.size == 0, "the names of the text");
    }
    vf_assert(r.used() == n, "the whole document and nothing else is read"); vf_reach("read");
}
VF_ENTRY(vf_object) { docs(true, 2, false); }
VF_ENTRY(vf_array) { docs(false, 2, false); }
VF_ENTRY(vf_object3) { docs(true, 3, true); }
VF_ENTRY(vf_array3) { docs(false, 3, true); }
/* a scope closes on its own bracket only */
VF_ENTRY(vf_bracket) {
    bool a = vf_bool("outer"), b = vf_bool("inner"), i = vf_bool("inner scope"), v = vf_bool("value"); uint8_t c = vf_u8("bracket"); vf_assume(c == '}' || c == ']'); n = 0;
    add(a ? "{" : "[", 1); if(i) { if(a) add("\"k\":", 4); add(b ? "{" : "[", 1); }
    bool o = i ? b : a; if(v) { if(o) add("\"k\":", 4); add("1", 1); } D[n++] = c; add(" ", 1); add("]}]}", 4);
    PJson p; Rd r(D, n); p.read(r.in); if(i) p.read(r.in); bool ok = true, end = false;
    try { if(v) p.read(r.in); end = p.read(r.in).second.type() == Type::Scope_End; } catch(Srl::Exception &) { ok = false; }
    vf_assert((ok && end) == (c == (o ? '}' : ']')), "a scope closes on its own bracket only"); if(ok) vf_reach("closed"); else vf_reach("rejected");
}
