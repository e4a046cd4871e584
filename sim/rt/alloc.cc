// Allocator seam: injected allocation failures, poisoned fresh/freed memory, and an electric
// fence (every allocation ends at an inaccessible page, freed memory becomes inaccessible).
#include "internal.h"
#include <dlfcn.h>
#include <errno.h>
#include <execinfo.h>
#include <link.h>
#include <malloc.h>
#include <new>
#include <stdlib.h>
#include <sys/mman.h>
#include <unistd.h>

extern "C" {
void * __libc_malloc(size_t);
void __libc_free(void *);
void * __libc_calloc(size_t, size_t);
void * __libc_realloc(void *, size_t);
void * __libc_memalign(size_t, size_t);
}

namespace sim {
int allocFaults = 0;
int allocSites = 0;
void * runCaller = nullptr;
static bool guardOn = false;
static char * arena = nullptr;
static size_t arenaPos = 0;
static const size_t ARENA = 64ULL << 30;
static size_t liveGuards = 0;
struct GHead { size_t size; char * user; uint64_t magic; };     // first page of each guarded block
static const uint64_t MAGIC = 0x6a11ed0ca5e5ULL;
// for each page of the arena: where in it the allocation starts
static uint16_t * startIn = nullptr;
bool guardChecks = false;

void guardAlloc(bool on) {
    if(on && !arena) {
        char * p = (char *) mmap(nullptr, ARENA, PROT_NONE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p != MAP_FAILED) arena = p;
        p = (char *) mmap(nullptr, ARENA / 4096 * 2, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
        if(p != MAP_FAILED) startIn = (uint16_t *) p;
    }
    guardOn = on && arena;
    if(guardOn && startIn) guardChecks = true;
}
bool inGuardArena(const void * p) { return arena && p >= arena && p < arena + ARENA; }
// z5 reads or writes here (behind an allocation is a page that cannot be accessed)
void checkAccess(const void * p) {
    if(inGuardArena(p) && (size_t((const char *) p - arena) & 4095) < startIn[size_t((const char *) p - arena) / 4096]) fail("memory-error", "access before the start of an allocation");
}

static inline bool wantGuard() { return guardOn && self && self->nofault == 0 && self->noalloc == 0; }
// layout: [header page][data pages][inaccessible page]; data ends at the inaccessible page
static void * guarded(size_t n, size_t align) {
    const size_t P = 4096;
    if(!n) n = 1;
    size_t data = (n + P - 1) / P * P;
    size_t total = P + data + P;
    if(liveGuards > 20000 || arenaPos + total > ARENA) return nullptr;
    char * base = arena + arenaPos;
    if(mprotect(base, P + data, PROT_READ | PROT_WRITE)) return nullptr;
    arenaPos += total;
    ++liveGuards;
    size_t off = data - n;
    off = off / align * align;
    char * u = base + P + off;
    GHead * h = (GHead *) base;
    h->size = n; h->user = u; h->magic = MAGIC;
    memset(base + P, 0xA5, data);
    if(startIn) { startIn[size_t(base - arena) / P] = uint16_t(P); startIn[size_t(base - arena) / P + 1] = uint16_t(off); }
    // remember the header from the user pointer: its page index is found by scanning back
    return u;
}
static GHead * headOf(void * p) {
    const size_t P = 4096;
    char * page = arena + (size_t((char *) p - arena) / P) * P;
    // the header page directly precedes the first data page
    GHead * h = (GHead *) (page - P);
    if(h->magic == MAGIC && h->user == p) return h;
    return nullptr;
}
static void guardedFree(void * p) {
    const size_t P = 4096;
    GHead * h = headOf(p);
    if(!h || h->magic != MAGIC || h->user != p) fail("memory-error", "invalid or double free");
    size_t n = h->size, data = (n + P - 1) / P * P;
    char * d = (char *) h + P;
    for(char * c = d; c < (char *) p; ++c) if((unsigned char) *c != 0xA5) fail("memory-error", "write before the start of an allocation");
    for(char * c = (char *) p + n; c < d + data; ++c) if((unsigned char) *c != 0xA5) fail("memory-error", "write past the end of an allocation");
    --liveGuards;
    madvise(h, P + data, MADV_DONTNEED);
    mprotect(h, P + data, PROT_NONE);
}
static inline size_t alignOf(size_t n) { return n % 16 == 0 ? 16 : n % 8 == 0 ? 8 : n % 4 == 0 ? 4 : n % 2 == 0 ? 2 : 1; }

// Allocations made by code that is not z5's and cannot survive losing one: nlohmann::json (its
// noexcept destructor allocates, and a value whose construction failed half way is destroyed
// through a wild pointer) and libstdc++'s directory walk (allocates in noexcept functions).
static bool inForeignCode() {
    void * bt[48];
    int n = backtrace(bt, 48);
    for(int i = 2; i < n; ++i) {
        Dl_info d;
        if(!dladdr(bt[i], &d) || !d.dli_sname) continue;
        const char * s = d.dli_sname;
        if(strstr(s, "directory_iterator")) return true;
        if(!strncmp(s, "_ZN8nlohmann", 12) || !strncmp(s, "_ZNK8nlohmann", 13) || !strncmp(s, "_ZZN8nlohmann", 13)) return true;
        if((!strncmp(s, "_ZNSt", 5) || !strncmp(s, "_ZSt", 4) || !strncmp(s, "_ZNKSt", 6)) && strstr(s, "nlohmann")) return true;
        // the library's inlined parts: the innermost z5 function handles a JSON value
        if(!strncmp(s, "_ZN2z5", 6) || !strncmp(s, "_ZNK2z5", 7)) return strstr(s, "nlohmann") || strstr(s, "JsonIO");
    }
    return false;
}
// where in the code an allocation is made: the innermost frames, relative to the program's start
extern "C" char __executable_start;
static uint64_t allocSite() {
    void * bt[12];
    int n = backtrace(bt, 12);
    uint64_t h = spec.seed; const uintptr_t lo = uintptr_t(&__executable_start);
    for(int i = 3; i < n && bt[i] != runCaller; ++i) if(uintptr_t(bt[i]) - lo < (uintptr_t(1) << 31)) h = mix(h, uintptr_t(bt[i]) - lo);
    return h;
}
static bool failThis() {
    Thr * t = self;
    uint64_t param;
    ++t->nofault; ++t->noalloc; ++t->nopre;
    if(allocSites && !spec.replay && mix(allocSite(), 77) % uint64_t(allocSites)) { skipIoFault(); --t->nofault; --t->noalloc; --t->nopre; return false; }
    bool r = decideIoFault(bit(F_ENOMEM), param, 0, inForeignCode) != 0;
    --t->nofault; --t->noalloc; --t->nopre;
    return r;
}
// C allocations of the codec libraries that check them (libblosc and liblz4 use the result unchecked)
struct Range { uintptr_t lo, hi; };
static Range codecs[16]; static int nCodecs = -1;
static void findCodecs() {
    nCodecs = 0;
    dl_iterate_phdr([](struct dl_phdr_info * i, size_t, void *) {
        const char * n = i->dlpi_name;
        if(strstr(n, "libdeflate") || strstr(n, "libzstd") || strstr(n, "liblzma") || strstr(n, "libbz2"))
            for(int k = 0; k < i->dlpi_phnum && nCodecs < 16; ++k) if(i->dlpi_phdr[k].p_type == PT_LOAD && (i->dlpi_phdr[k].p_flags & PF_X))
                codecs[nCodecs++] = {uintptr_t(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr), uintptr_t(i->dlpi_addr + i->dlpi_phdr[k].p_vaddr + i->dlpi_phdr[k].p_memsz)};
        return 0;
    }, nullptr);
}
static inline bool codecFails(const void * caller) {
    Thr * t = self;
    if(!t || !active || !allocFaults || !t->armed || t->nofault || t->noalloc) return false;
    if(nCodecs < 0) { ++t->noalloc; findCodecs(); --t->noalloc; }
    uintptr_t c = uintptr_t(caller);
    for(int i = 0; i < nCodecs; ++i) if(c >= codecs[i].lo && c < codecs[i].hi) {
        uint64_t param;
        ++t->nofault; ++t->noalloc; ++t->nopre;
        bool r = decideIoFault(bit(F_ENOMEM), param, 0) != 0;
        if(r) probe("codec-out-of-memory");
        --t->nofault; --t->noalloc; --t->nopre;
        return r;
    }
    return false;
}
size_t allocLimit = 0;
static void * newImpl(size_t n, size_t align, bool mayFail) {
    Thr * t = self;
    if(t && active) {
        if(allocLimit && n > allocLimit && mayFail) { probe("allocation-too-large"); return nullptr; }
        if(allocFaults == 1 && mayFail && t->armed && !t->nofault && !t->noalloc) {
            if(failThis()) return nullptr;
        }
        if(wantGuard()) {
            void * p = guarded(n, align > 16 ? align : alignOf(n ? n : 1));
            if(p) return p;
        }
    }
    void * p = align > 16 ? __libc_memalign(align, n) : __libc_malloc(n ? n : 1);
    if(p && t && active && n < (1 << 20)) memset(p, 0xA5, n);
    return p;
}
static void freeImpl(void * p) {
    if(!p) return;
    if(inGuardArena(p)) { guardedFree(p); return; }
    if(self && active) { size_t k = malloc_usable_size(p); if(k < (1 << 20)) memset(p, 0x5A, k); }
    __libc_free(p);
}
static void * orThrow(void * p) { if(!p) throw std::bad_alloc(); return p; }
} // namespace sim

using namespace sim;
void * operator new(size_t n) { return orThrow(newImpl(n, 0, true)); }
void * operator new[](size_t n) { return orThrow(newImpl(n, 0, true)); }
void * operator new(size_t n, const std::nothrow_t &) noexcept { return newImpl(n, 0, true); }
void * operator new[](size_t n, const std::nothrow_t &) noexcept { return newImpl(n, 0, true); }
void * operator new(size_t n, std::align_val_t a) { return orThrow(newImpl(n, size_t(a), true)); }
void * operator new[](size_t n, std::align_val_t a) { return orThrow(newImpl(n, size_t(a), true)); }
void operator delete(void * p) noexcept { freeImpl(p); }
void operator delete[](void * p) noexcept { freeImpl(p); }
void operator delete(void * p, size_t) noexcept { freeImpl(p); }
void operator delete[](void * p, size_t) noexcept { freeImpl(p); }
void operator delete(void * p, std::align_val_t) noexcept { freeImpl(p); }
void operator delete[](void * p, std::align_val_t) noexcept { freeImpl(p); }
void operator delete(void * p, size_t, std::align_val_t) noexcept { freeImpl(p); }
void operator delete[](void * p, size_t, std::align_val_t) noexcept { freeImpl(p); }
void operator delete(void * p, const std::nothrow_t &) noexcept { freeImpl(p); }
void operator delete[](void * p, const std::nothrow_t &) noexcept { freeImpl(p); }

// C allocations (codecs): poisoned; out-of-bounds detection by the fence, 16 byte granularity
extern "C" {
void * malloc(size_t n) {
    if(codecFails(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
    if(active && wantGuard()) { void * p = guarded(n, 16); if(p) return p; }
    void * p = __libc_malloc(n);
    if(p && active && self && n < (1 << 20)) memset(p, 0xA5, n);
    return p;
}
void free(void * p) { freeImpl(p); }
void * calloc(size_t a, size_t b) {
    size_t n;
    if(codecFails(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; }
    if(active && wantGuard() && !__builtin_mul_overflow(a, b, &n)) { void * p = guarded(n, 16); if(p) { memset(p, 0, n); return p; } }
    return __libc_calloc(a, b);
}
void * realloc(void * p, size_t n) {
    if(!p) return malloc(n);
    if(inGuardArena(p)) {
        GHead * h = headOf(p);
        if(!h) fail("memory-error", "realloc of an invalid pointer");
        size_t o = h->size;
        void * q = malloc(n);
        if(!q) return q;
        memcpy(q, p, o < n ? o : n);
        free(p);
        return q;
    }
    return __libc_realloc(p, n);
}
void * memalign(size_t a, size_t n) { if(codecFails(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
void * aligned_alloc(size_t a, size_t n) { if(codecFails(__builtin_return_address(0))) { errno = ENOMEM; return nullptr; } return __libc_memalign(a, n); }
int posix_memalign(void ** p, size_t a, size_t n) { if(codecFails(__builtin_return_address(0))) return ENOMEM; *p = __libc_memalign(a, n); return *p ? 0 : ENOMEM; }
}
