/* Native side of vf.h: replays a recorded input vector, or searches with random ones. */
#include "vf.h"
#include <csetjmp>
#include <cstdio>
#include <cstdlib>
#include <ctime>
#include <string>
#include <vector>
#include <fstream>
#include <sstream>
#include <iostream>
#include <sys/mman.h>
#include <fcntl.h>
#include <unistd.h>
#include <random>
#include <sanitizer/asan_interface.h>
extern "C" void VF_ENTRYPOINT();
namespace {
struct Rec { std::string kind, name; std::vector<uint8_t> data; };
std::vector<Rec> rec; size_t pos = 0; bool fuzz = false; sigjmp_buf jb;
char *log_ = nullptr; size_t logn = 0; const size_t LOGMAX = 1 << 20;
std::mt19937_64 rng; std::vector<void*> blocks; unsigned long iter = 0; uint64_t lastsize = 0;
const char *out = nullptr;
void logv(const char *kind, const char *name, const uint8_t *p, size_t n) {
    if(!log_) return;
    auto put = [](const char *s, size_t k) { if(logn + k < LOGMAX) { memcpy(log_ + logn, s, k); logn += k; } };
    put(kind, strlen(kind)); put(" ", 1); put(name, strlen(name)); put(" ", 1);
    const char *h = "0123456789abcdef";
    for(size_t i = 0; i < n; i++) { char c[2] = { h[p[i] >> 4], h[p[i] & 15] }; put(c, 2); }
    put("\n", 1);
    if(logn < LOGMAX) log_[logn] = 0;
}
void skip() { siglongjmp(jb, 1); }
uint64_t rnd(unsigned bits) {
    static const uint64_t sp[] = { 0,1,2,7,9,10,15,16,23,24,31,32,33,34,47,48,57,58,63,64,65,91,92,93,95,97,102,103,123,125,127,128,129,191,192,193,196,202,203,217,220,223,224,255,256,65535,65536,0x7fffffff,0x80000000,0xffffffff,0x100000000ull,0x7fffffffffffffffull,0x8000000000000000ull,0xffffffffffffffffull };
    uint64_t r;
    switch(rng() % 6) {
    case 0: r = rng() % 17; break;
    case 1: r = sp[rng() % (sizeof sp / 8)]; break;
    case 2: r = (1ull << (rng() % 64)) + (rng() % 3) - 1; break;
    case 3: r = rng() >> (rng() % 64); break;
    case 4: r = ~(rng() >> (rng() % 64)); break;
    default: r = rng();
    }
    return bits == 64 ? r : r & ((1ull << bits) - 1);
}
uint64_t take(const char *name, unsigned bits) {
    uint64_t v = 0; unsigned n = (bits + 7) / 8;
    if(fuzz) {
        v = rnd(bits);
        if(bits == 64 && !strncmp(name, "f_", 2)) { double d; switch(rng() % 4) { case 0: d = (double)(int64_t) rnd(64); memcpy(&v, &d, 8); break; case 1: d = (double) rnd(64) ; memcpy(&v, &d, 8); break; case 2: d = (double)(int64_t) (rng() % 2000) / 8 - 100; memcpy(&v, &d, 8); break; default:; } }
        if(bits == 32 && !strncmp(name, "f_", 2)) { float d; switch(rng() % 3) { case 0: d = (float)(int64_t) rnd(64); memcpy(&v, &d, 4); break; case 1: d = (float) (rng() % 2000) / 8 - 100; v = 0; memcpy(&v, &d, 4); break; default:; } }
    } else {
        if(pos >= rec.size()) { fprintf(stderr, "REPLAY: input vector exhausted at %s\n", name); _exit(3); }
        Rec &r = rec[pos++];
        if(r.name != name) { fprintf(stderr, "REPLAY: expected %s got %s\n", name, r.name.c_str()); _exit(3); }
        memcpy(&v, r.data.data(), r.data.size() < 8 ? r.data.size() : 8);
    }
    logv("u", name, (uint8_t*) &v, n);
    return v;
}
}
extern "C" {
uint64_t vf_u64(const char *n) { return take(n, 64); }
uint32_t vf_u32(const char *n) { return (uint32_t) take(n, 32); }
uint16_t vf_u16(const char *n) { return (uint16_t) take(n, 16); }
uint8_t vf_u8(const char *n) { return (uint8_t) take(n, 8); }
bool vf_bool(const char *n) { return take(n, 1) & 1; }
double vf_f64(const char *n) { uint64_t v = take(n, 64); double d; memcpy(&d, &v, 8); return d; }
float vf_f32(const char *n) { uint32_t v = (uint32_t) take(n, 32); float d; memcpy(&d, &v, 4); return d; }
size_t vf_size(const char *n, size_t max) {
    uint64_t v;
    if(fuzz) {
        uint64_t lim = max < 40 ? max : (rng() % 8 ? 40 : (rng() % 8 ? 400 : 70000));
        if(lim > max) lim = max;
        v = rng() % (lim + 1);
        logv("u", n, (uint8_t*) &v, 8);
    } else {
        v = take(n, 64);
        if(v > max) skip();
    }
    return v;
}
uint8_t *vf_bytes(const char *name, size_t n) {
    if(n > (1u << 28)) { if(fuzz) skip(); fprintf(stderr, "REPLAY: object too large\n"); _exit(3); }
    uint8_t *p = (uint8_t*) malloc(n ? n : 1);
    if(!n) __asan_poison_memory_region(p, 1);
    blocks.push_back(p);
    if(fuzz) {
        static const char js[] = "{}[]\",:\\/utrfn0123456789.-+eE*\n\t ABCDabcd==";
        unsigned m = rng() % 5;
        for(size_t i = 0; i < n; i++) p[i] = m == 0 ? (uint8_t) rng() : m == 1 ? (uint8_t) js[rng() % (sizeof js - 1)] : m == 2 ? (uint8_t)(rng() % 4 ? "0123456789abcdefABCDEF"[rng() % 22] : rnd(8)) : m == 3 ? (uint8_t)("ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/=\x80\xff"[rng() % 67]) : (uint8_t) rnd(8);
    } else {
        if(pos >= rec.size() || rec[pos].name != name) { fprintf(stderr, "REPLAY: bytes %s missing\n", name); _exit(3); }
        Rec &r = rec[pos++];
        memset(p, 0, n);
        memcpy(p, r.data.data(), r.data.size() < n ? r.data.size() : n);
    }
    logv("b", name, p, n);
    return p;
}
uint8_t *vf_map(const char *name, size_t n, uint8_t (*f)(uint8_t, size_t)) {
    uint8_t *p = vf_bytes(name, n);
    for(size_t i = 0; i < n; i++) p[i] = f(p[i], i);
    return p;
}
void vf_assume(bool b) { if(!b) { if(!fuzz) fprintf(stderr, "REPLAY: assumption not met\n"); skip(); } }
void vf_assert(bool b, const char *l) {
    if(!b) { fflush(stdout); fprintf(stderr, "VF-ASSERT FAILED: %s\n", l); _exit(77); }
}
void vf_reach(const char *) {}
void vf_watch(size_t, uint64_t) {}
void vf_fact(size_t, bool) {}
void vf_term(size_t) {}
uint64_t vf_pure(uint64_t (*f)(uint64_t, uint64_t, uint64_t, uint64_t), uint64_t a, uint64_t b, uint64_t c, uint64_t d) { return f(a, b, c, d); }
uint64_t vf_fold(const uint8_t *p, size_t n, uint64_t a, uint64_t b, uint64_t (*fa)(uint64_t, uint64_t, uint64_t, uint64_t), uint64_t (*fb)(uint64_t, uint64_t, uint64_t, uint64_t), uint64_t *out) {
    for(size_t i = 0; i < n; i++) { uint64_t x = fa(a, b, p[i], 0), y = fb(a, b, p[i], 0); a = x; b = y; }
    *out = b; return a;
}
uint64_t vf_concrete(uint64_t v) { return v; }
void vf_havoc(void *, size_t) {}
void vf_drop(void *) { }
void vf_readable(const void *p, size_t n) { volatile uint8_t s = 0; for(size_t i = 0; i < n; i++) s ^= ((const volatile uint8_t*) p)[i]; }
void vf_writable(void *p, size_t n) { vf_readable(p, n); }
bool vf_inside(const void *p, size_t n, const void *q) {
    char nm[8]; void *a = nullptr, *b = nullptr; size_t as = 0, bs = 0;
    __asan_locate_address((void*) q, nm, 8, &a, &as);
    return a && (char*) p >= (char*) a && (char*) p + n <= (char*) a + as;
}
bool vf_valid(const void *p, size_t n) { return n == 0 || !__asan_region_is_poisoned((void*) p, n); }
bool vf_live(const void *p) { return p && !__asan_region_is_poisoned((void*) p, 1); }
const char *__asan_default_options() { return "detect_leaks=0:allocator_may_return_null=0:exitcode=78:max_allocation_size_mb=2048:detect_stack_use_after_return=0:quarantine_size_mb=16"; }
const char *__ubsan_default_options() { return "halt_on_error=1:exitcode=79:print_stacktrace=1"; }
}
int main(int argc, char **argv) {
    /* replay FILE | fuzz SEED SECONDS LOGFILE */
    std::string mode = argc > 1 ? argv[1] : "";
    if(mode == "replay" && argc > 2) {
        std::ifstream f(argv[2]); std::string line;
        while(std::getline(f, line)) {
            if(line.empty() || line[0] == '#') continue;
            std::istringstream is(line); Rec r; std::string hex; is >> r.kind >> r.name >> hex;
            for(size_t i = 0; i + 1 < hex.size(); i += 2) r.data.push_back((uint8_t) strtoul(hex.substr(i, 2).c_str(), nullptr, 16));
            rec.push_back(r);
        }
        if(sigsetjmp(jb, 0)) return 4;
        VF_ENTRYPOINT();
        return 0;
    }
    if(mode == "fuzz" && argc > 4) {
        fuzz = true;
        double secs = atof(argv[3]); uint64_t seed = strtoull(argv[2], 0, 10);
        int fd = open(argv[4], O_RDWR | O_CREAT | O_TRUNC, 0644);
        if(fd < 0 || ftruncate(fd, LOGMAX)) return 5;
        log_ = (char*) mmap(0, LOGMAX, PROT_READ | PROT_WRITE, MAP_SHARED, fd, 0);
        time_t t0 = time(0);
        if(argc > 5) rng.seed(0);
        while(time(0) - t0 < secs) {
            logn = 0; log_[0] = 0; rng.seed(seed + iter);
            iter++;
            if(!sigsetjmp(jb, 0)) VF_ENTRYPOINT();
            for(void *b : blocks) { __asan_unpoison_memory_region(b, 1); free(b); }
            blocks.clear();
        }
        fprintf(stderr, "fuzz: %lu runs\n", iter);
        return 0;
    }
    return 2;
}
