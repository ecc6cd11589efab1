/* in-memory source / destination used by several harnesses */
#ifndef VFUTIL_H
#define VFUTIL_H
#include "Srl/Srl.h"
#include "Srl/Lib.h"
using namespace Srl;
using namespace Lib;
struct Buf {
    std::vector<uint8_t> v; Lib::Out out;
    Buf() { out.set(Lib::Out::Source(v)); }
    void flush() { out.flush(); }
    const uint8_t *data() { return v.data(); }
    size_t size() { return v.size(); }
};
struct Rd {
    Lib::In in; const uint8_t *p0;
    Rd(const uint8_t *p, size_t n) : p0(p) { in.set(Lib::In::Source(p, n)); }
    size_t used() { return (size_t)(in.pointer() - p0); }
};
#endif
