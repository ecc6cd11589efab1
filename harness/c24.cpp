/* C24: character-set conversion is complete and stays inside its buffers, whatever a conforming iconv does. */
#include "vf.h"
#include "vfutil.h"
#include "convert.h"
#ifndef VF_NATIVE
template<bool trivial> static void conv(uint8_t from, uint8_t t, int calls_) {
    bool thr = vf_bool("throw"); max_calls = calls_;
    String s = input(from); const uint8_t *p = s.data(); size_t n = s.size(); Encoding to = (Encoding) t;
    std::vector<uint8_t> buf; size_t at = vf_size("start", Max), b = at + vf_size("room", Max);
    buf.resize(b); uint8_t *old = vf_bytes("old", b); memcpy(buf.data(), old, b);
    size_t r = 0; bool ok = true;
    try { r = Tools::conv_charset(to, s, buf, thr, at); } catch(Srl::Exception &) { ok = false; }
    vf_assert(opened == 0, "the converter is closed");
    bool same = to == s.encoding(), unknown = !same && (to == Encoding::Unknown || s.encoding() == Encoding::Unknown);
    if(n == 0) { vf_assert(ok && r == 0, "nothing to convert"); return; }
    if(same) {
        vf_assert(ok && r == n && buf.size() >= at + n, "the text is copied");
        size_t i = vf_size("i", Max); vf_assume(i < n); vf_assert(buf[at + i] == p[i], "the text is copied"); if constexpr(trivial) vf_reach("copied");
    } else if(unknown || bad) {
        vf_reach("failure"); vf_assert(thr ? !ok : ok && r == 0, "failure is reported");
    } else {
        vf_assert(ok, "a complete conversion is no failure");
        vf_assert(r == f_pos && Left == 0, "everything is converted"); vf_assert(buf.size() >= at + r, "the result lies in the buffer");
        if constexpr(!trivial) vf_reach("converted");
        if(vf_bool("text")) { size_t i = vf_size("i", Max * 16); vf_assume(i < r); vf_assert(buf[at + i] == F[i], "every character is in its place"); }
        else { size_t i = vf_size("i", Max); vf_assume(i < at); vf_assert(buf[i] == old[i], "what precedes is kept"); }
    }
}
/* one encoding is unknown or both are the same */
VF_ENTRY(vf_conv_trivial) {
    uint8_t f = vf_u8("from"), t = vf_u8("to"); vf_assume((f < 4) & (t < 4) & ((f == t) | (f == 0) | (t == 0)));
    conv<true>((uint8_t) vf_concrete(f), (uint8_t) vf_concrete(t), 1);
}
VF_ENTRY(vf_conv_8_16) { conv<false>(1, 2, 3); }
VF_ENTRY(vf_conv_8_32) { conv<false>(1, 3, 3); }
VF_ENTRY(vf_conv_16_8) { conv<false>(2, 1, 3); }
VF_ENTRY(vf_conv_16_32) { conv<false>(2, 3, 3); }
VF_ENTRY(vf_conv_32_8) { conv<false>(3, 1, 3); }
VF_ENTRY(vf_conv_32_16) { conv<false>(3, 2, 3); }
/* the variant that delivers a vector */
VF_ENTRY(vf_conv_vector) {
    max_calls = 2; String s = input(2); const uint8_t *p = s.data(); size_t n = s.size(); Encoding to = vf_bool("same") ? Encoding::UTF16 : Encoding::UTF8; bool ok = true; std::vector<uint8_t> v;
    try { v = Tools::conv_charset(to, s, true); } catch(Srl::Exception &) { ok = false; }
    bool same = to == s.encoding(), unknown = !same && (to == Encoding::Unknown || s.encoding() == Encoding::Unknown);
    if(n == 0) { vf_assert(ok && v.empty(), "nothing to convert"); return; }
    if(same) { vf_assert(ok && v.size() == n, "the text is copied"); size_t i = vf_size("i", Max); vf_assume(i < n); vf_assert(v[i] == p[i], "the text is copied"); }
    else if(unknown || bad) vf_assert(!ok, "failure is reported");
    else {
        vf_assert(ok && v.size() == f_pos, "everything is converted, nothing else");
        size_t i = vf_size("i", Max * 16); vf_assume(i < v.size()); vf_assert(v[i] == F[i], "every character is in its place"); vf_reach("converted");
    }
}
#else
/* natively with the real iconv: characters of any plane, in any encoding, at any place of the buffer */
#endif
static size_t put8(uint8_t *o, uint32_t c) {
    if(c < 0x80) { o[0] = (uint8_t) c; return 1; }
    if(c < 0x800) { o[0] = (uint8_t)(0xC0 | c >> 6); o[1] = (uint8_t)(0x80 | (c & 63)); return 2; }
    if(c < 0x10000) { o[0] = (uint8_t)(0xE0 | c >> 12); o[1] = (uint8_t)(0x80 | (c >> 6 & 63)); o[2] = (uint8_t)(0x80 | (c & 63)); return 3; }
    o[0] = (uint8_t)(0xF0 | c >> 18); o[1] = (uint8_t)(0x80 | (c >> 12 & 63)); o[2] = (uint8_t)(0x80 | (c >> 6 & 63)); o[3] = (uint8_t)(0x80 | (c & 63)); return 4;
}
#ifdef VF_NATIVE
VF_ENTRY(vf_native_text) {
    size_t n = vf_size("chars", 200), at = vf_size("start", 50), room = vf_size("room", 300);
    std::vector<uint8_t> u8, u16, u32;
    for(size_t i = 0; i < n; i++) {
        uint32_t c = vf_u32("c") % 0x110000; if((c & 0xF800) == 0xD800 && c < 0x10000) c = 'x'; if(c == 0xFEFF) c = 'y'; if(vf_bool("ascii")) c &= 127;
        uint8_t b[4]; size_t k = put8(b, c); u8.insert(u8.end(), b, b + k);
        u32.insert(u32.end(), (uint8_t *) &c, (uint8_t *) &c + 4);
        if(c < 0x10000) { u16.push_back((uint8_t) c); u16.push_back((uint8_t)(c >> 8)); }
        else { uint32_t d = c - 0x10000; uint16_t h = (uint16_t)(0xD800 | d >> 10), l = (uint16_t)(0xDC00 | (d & 0x3FF)); u16.insert(u16.end(), (uint8_t *) &h, (uint8_t *) &h + 2); u16.insert(u16.end(), (uint8_t *) &l, (uint8_t *) &l + 2); }
    }
    std::vector<uint8_t> *all[] = { nullptr, &u8, &u16, &u32 };
    uint8_t f = (uint8_t)(1 + vf_u8("from") % 3), t = (uint8_t)(1 + vf_u8("to") % 3);
    std::vector<uint8_t> buf(room < at ? at : room, 0x5a);
    size_t r = Tools::conv_charset((Encoding) t, String(all[f]->data(), all[f]->size(), (Encoding) f), buf, true, at);
    vf_assert(r == all[t]->size(), "everything is converted"); vf_assert(buf.size() >= at + r, "the result lies in the buffer");
    vf_assert(memcmp(buf.data() + at, all[t]->data(), r) == 0, "every character is in its place");
    for(size_t i = 0; i < at; i++) vf_assert(buf[i] == 0x5a, "what precedes is kept");
}
#else
VF_ENTRY(vf_native_text) { uint8_t b[4]; uint32_t c = vf_u32("c"); vf_assume(c < 0x110000); size_t n = put8(b, c); vf_assert((n == 1) == (b[0] < 0x80), "the text is built from standard UTF-8"); vf_reach("only run natively"); }
#endif
