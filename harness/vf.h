/* Specification intrinsics. Under the verifier (engine/) they are symbolic; natively (native.cpp)
   they deliver recorded or random concrete values so that a counterexample can be replayed. */
#ifndef VF_H
#define VF_H
#include <cstdint>
#include <cstddef>
#include <cstring>
extern "C" {
uint64_t vf_u64(const char *name);
uint32_t vf_u32(const char *name);
uint16_t vf_u16(const char *name);
uint8_t  vf_u8(const char *name);
bool     vf_bool(const char *name);
double   vf_f64(const char *name);
float    vf_f32(const char *name);
size_t   vf_size(const char *name, size_t max);       /* any number <= max */
uint8_t *vf_bytes(const char *name, size_t n);        /* a fresh object of exactly n arbitrary bytes */
uint8_t *vf_map(const char *name, size_t n, uint8_t (*f)(uint8_t raw, size_t i)); /* n bytes, byte i = f(any byte, i) */
void     vf_assume(bool);                             /* precondition */
void     vf_assert(bool, const char *label);          /* postcondition / invariant */
void     vf_reach(const char *label);                 /* must be reachable (vacuity guard) */
void     vf_watch(size_t k, uint64_t v);              /* hint: after iteration k some array holds v at k */
void     vf_fact(size_t k, bool b);                   /* hint: iteration k establishes b */
void     vf_term(size_t t);                           /* hint: ghost index / bound */
uint64_t vf_pure(uint64_t (*f)(uint64_t, uint64_t, uint64_t, uint64_t), uint64_t a, uint64_t b, uint64_t c, uint64_t d); /* f(a,b,c,d), f without side effects, taken as one expression */
/* a(n) of  a(0)=a0, b(0)=b0, a(i+1)=fa(a(i),b(i),p[i],0), b(i+1)=fb(...); *b = b(n); b is a flag that stays set */
uint64_t vf_fold(const uint8_t *p, size_t n, uint64_t a0, uint64_t b0, uint64_t (*fa)(uint64_t, uint64_t, uint64_t, uint64_t), uint64_t (*fb)(uint64_t, uint64_t, uint64_t, uint64_t), uint64_t *b);
uint64_t vf_concrete(uint64_t v);                     /* case split */
void     vf_havoc(void *p, size_t n);
void     vf_drop(void *p);                             /* contract stubs: the object p points into is gone */
void     vf_readable(const void *p, size_t n);        /* obligation: [p,p+n) may be read */
void     vf_writable(void *p, size_t n);
bool     vf_inside(const void *p, size_t n, const void *q);
bool     vf_valid(const void *p, size_t n);
bool     vf_live(const void *p);
}
#define VF_ENTRY(n) extern "C" void n()
#ifdef VF_NATIVE
#define VF_CONTRACT(x)
#else
#define VF_CONTRACT(x) x
#endif
#endif
