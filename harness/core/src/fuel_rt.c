/* Run-time part of the work counter (see fuel.rs): called at every code edge of the Rust code compiled with
   SanitizerCoverage; memmove, memcpy and memset count one step per 16 bytes. */
#include <stddef.h>
#include <stdint.h>
static __thread uint64_t left = UINT64_MAX;
extern void vp_out_of_fuel(void);
static inline void take(uint64_t n) {
    if (left == UINT64_MAX) return;
    if (left < n) {
        left = UINT64_MAX;
        vp_out_of_fuel();
        return;
    }
    left -= n;
}
uint64_t vp_fuel_swap(uint64_t n) {
    uint64_t l = left;
    left = n;
    return l;
}
void __sanitizer_cov_trace_pc_guard(uint32_t *g) { (void)g; take(1); }
void __sanitizer_cov_trace_pc_guard_init(uint32_t *a, uint32_t *b) { (void)a; (void)b; }
static inline void fwd(void *d, const void *s, size_t n) { __asm__ volatile("rep movsb" : "+D"(d), "+S"(s), "+c"(n) : : "memory"); }
static inline void bwd(void *d, const void *s, size_t n) {
    char *e = (char *)d + n - 1;
    const char *f = (const char *)s + n - 1;
    __asm__ volatile("std\n\trep movsb\n\tcld" : "+D"(e), "+S"(f), "+c"(n) : : "memory");
}
void *memcpy(void *d, const void *s, size_t n) {
    take(n / 16);
    fwd(d, s, n);
    return d;
}
void *memmove(void *d, const void *s, size_t n) {
    take(n / 16);
    if ((uintptr_t)d - (uintptr_t)s >= n) fwd(d, s, n);
    else bwd(d, s, n);
    return d;
}
void *memset(void *d, int c, size_t n) {
    void *r = d;
    take(n / 16);
    __asm__ volatile("rep stosb" : "+D"(d), "+c"(n) : "a"(c) : "memory");
    return r;
}
