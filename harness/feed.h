/* A parser that delivers a given sequence of items. As with the real ones, the memory of what it delivers is only
   valid until the next read: it is freed there, so that any later use is an obligation that fails. */
#ifndef FEED_H
#define FEED_H
#include "names.h"
struct Ev { int name; Type type; uint64_t num; int len; };   /* len > 0: text of that length, num its first byte; len < 0: the name num as text; name < 0: none */
static const size_t NoFault = (size_t) -1;
struct Feed : Parser {
    std::vector<Ev> ev; size_t at = 0, fault = NoFault, cleared = 0; uint8_t *b0 = nullptr, *b1 = nullptr; bool text = false;
    Format get_format() const override { return text ? Format::Text : Format::Binary; }
    void drop() { delete[] b0; delete[] b1; b0 = b1 = nullptr; }
    void clear() override { drop(); cleared++; }
    std::pair<MemBlock, Value> read(Lib::In &) override {
        drop(); if(at == fault) throw Exception("input ends");
        vf_assert(at < ev.size(), "nothing is read behind the end of the document"); if(at >= ev.size()) throw Exception("end");
        auto &e = ev[at++]; MemBlock name;
        if(e.name >= 0) { size_t n = strlen(Alpha[e.name]); b0 = new uint8_t[n]; memcpy(b0, Alpha[e.name], n); name = MemBlock(b0, n); }
        if(e.len > 0) { b1 = new uint8_t[e.len]; for(int i = 0; i < e.len; i++) b1[i] = i ? 'a' : (uint8_t) e.num; return { name, Value(MemBlock(b1, (size_t) e.len), Type::String, Encoding::UTF8) }; }
        if(e.len < 0) { size_t n = e.num == NoFault ? 0 : strlen(Alpha[e.num]); b1 = new uint8_t[n + 1]; if(n) memcpy(b1, Alpha[e.num], n); return { name, Value(MemBlock(b1, n), Type::String, Encoding::UTF8) }; }
        if(e.type == Type::I64) return { name, Value((int64_t) e.num) };
        return { name, Value(e.type) };
    }
    void write(const Value &, const MemBlock &, Lib::Out &) override { }
    ~Feed() { drop(); }
    void num(int n, uint64_t v) { ev.push_back({ n, Type::I64, v, 0 }); }
    void str(int n, uint64_t c, int len) { ev.push_back({ n, Type::String, c, len }); }
    void txt(int n, int text) { ev.push_back({ n, Type::String, text < 0 ? NoFault : (uint64_t) text, -1 }); }
    void open(int n = -1, Type t = Type::Object) { ev.push_back({ n, t, 0, 0 }); }
    void end() { ev.push_back({ -1, Type::Scope_End, 0, 0 }); }
};
static uint8_t NoBytes[1];
static Lib::In::Source nothing() { return Lib::In::Source(NoBytes, 0); }
#endif
