// Native side of the replay: definitions of the opaque element operations (must agree with vf/spec.py), an
// instrumented allocator (guard pages, no reuse, poison, injected failure) and an exception-catching trampoline.
#include <stdint.h>
#include <stdlib.h>
#include <string.h>
#include <stdio.h>
#include <sys/mman.h>
#include <unistd.h>
#include <exception>
#include <dlfcn.h>
typedef uint32_t u32; typedef uint64_t u64;
extern "C" {
int vf_kmode = 0;
int vf_gen = 0;
bool k_lt (int a, int b) noexcept { return ((u32)a >> 2) < ((u32)b >> 2); }
bool k_eq (int a, int b) noexcept { unsigned s = vf_kmode ? 2 : 1; return ((u32)a >> s) == ((u32)b >> s); }
bool k_pred (int a) noexcept { return (u64)(u32)a * 7 % 11 < 5; }
bool k_bp (int a, int b) noexcept { return ((u64)(u32)a * 3 + (u64)(u32)b * 5) % 7 < 3; }
int k_fn1 (int a) noexcept { return (u32)a * 7u + 3u; }
int k_fn2 (int a, int b) noexcept { return (u32)a * 5u + (u32)b * 3u + 1u; }
int k_add (int a, int b) noexcept { return (u32)a * 9u + (u32)b * 5u + 7u; }
int k_mul (int a, int b) noexcept { return (u32)a * 3u + (u32)b * 11u + 2u; }
int k_sub (int a, int b) noexcept { return (u32)a * 13u - (u32)b * 7u + 3u; }
int k_gen (void) noexcept { u32 i = vf_gen++; return i * 11u + 5u; }
static void err (const char* m, void* p);
long vf_born = 0, vf_gone = 0;
void q_born (void) noexcept { ++vf_born; }
void q_gone (void) noexcept { ++vf_gone; }
void q_bad (void) noexcept { err ("use, assignment or destruction of an object that is not alive", nullptr); }

void* __real_malloc (size_t);
// ---- allocator: every block on its own pages, tail against a guard page
struct Blk { char* p; size_t n; char* map; size_t len; int live; };
enum { MAXB = 65536 };
static Blk B [MAXB]; static int nB = 0;
long vf_fail_at = -1, vf_allocs = 0; char vf_err [256];
static void err (const char* m, void* p) { if (!vf_err[0]) snprintf (vf_err, sizeof vf_err, "%s %p", m, p); }
static Blk* findb (void* p) { for (int i = nB-1; i >= 0; --i) if (B[i].p == p) return &B[i]; return nullptr; }
void* vf_alloc (size_t n, size_t align, int live)
{
    size_t pg = 4096, body = (n + align - 1) / align * align;
    if (body > ((size_t)1 << 33)) return nullptr;
    size_t len = (body + pg - 1) / pg * pg; if (!len) len = pg;
    char* m = (char*) mmap (nullptr, len + 2*pg, PROT_NONE, MAP_PRIVATE|MAP_ANONYMOUS|MAP_NORESERVE, -1, 0);
    if (m == MAP_FAILED) return nullptr;
    if (mprotect (m + pg, len, PROT_READ|PROT_WRITE)) return nullptr;
    if (nB >= MAXB) { fprintf (stderr, "allocator table full\n"); _exit (99); }
    char* p = m + pg + len - body;
    size_t lead = p - (m + pg); if (lead > 4096) lead = 4096;
    memset (p - lead, 0xC7, lead);
    if (n < (1u<<22)) memset (p, 0xA5, n);
    memset (p + n, 0xC9, body - n);
    B[nB++] = Blk{p, n, m, len + 2*pg, live};
    return p;
}
static void checkb (Blk* b)
{
    size_t lead = b->p - (b->map + 4096); if (lead > 4096) lead = 4096;
    for (size_t i = 1; i <= lead; ++i) if ((unsigned char) b->p[-(long)i] != 0xC7) { err ("write before the start of a block", b->p); break; }
    char* e = b->map + b->len - 4096;
    for (char* q = b->p + b->n; q < e; ++q) if ((unsigned char)*q != 0xC9) { err ("write past the end of a block", b->p); break; }
}
void* __wrap_malloc (size_t n)
{
    ++vf_allocs;
    if (vf_fail_at >= 0 && vf_allocs > vf_fail_at) return nullptr;
    return vf_alloc (n, 16, 1);
}
void* __wrap_calloc (size_t a, size_t b) { void* p = __wrap_malloc (a*b); if (p) memset (p, 0, a*b); return p; }
void __wrap_free (void* p)
{
    if (!p) return;
    Blk* b = findb (p);
    if (!b) { err ("free of memory that was not allocated", p); return; }
    if (b->live == 0) { err ("double free", p); return; }
    if (b->live == 2) { err ("free of memory the library does not own", p); return; }
    checkb (b); b->live = 0;
    mprotect (b->map, b->len, PROT_NONE);
}
void* __wrap_realloc (void* o, size_t n)
{
    if (!o) return __wrap_malloc (n);
    Blk* b = findb (o);
    if (!b) { err ("realloc of memory that was not allocated", o); return nullptr; }
    if (b->live != 1) { err ("realloc of freed or foreign memory", o); return nullptr; }
    if (!n) { __wrap_free (o); return nullptr; }
    int bi = b - B;
    void* p = __wrap_malloc (n);
    if (!p) return nullptr;
    memcpy (p, o, n < B[bi].n ? n : B[bi].n);
    __wrap_free (o);
    return p;
}
char** __wrap_backtrace_symbols (void* const*, int) { return nullptr; }	// (diagnostics inside exception objects)
int vf_is_live (void* p) { Blk* b = findb (p); return b ? b->live : -1; }
long vf_size_of (void* p) { Blk* b = findb (p); return b ? (long) b->n : -1; }
int vf_live_count (void) { int n = 0; for (int i = 0; i < nB; ++i) n += B[i].live == 1; return n; }
void vf_check_all (void) { for (int i = 0; i < nB; ++i) if (B[i].live) checkb (&B[i]); }
// is [p,p+n) inside one live block?
int vf_inside (void* p, size_t n) { for (int i = nB-1; i >= 0; --i) if (B[i].live && (char*)p >= B[i].p && (char*)p + n <= B[i].p + B[i].n) return 1; Dl_info d; return dladdr (p, &d) != 0; }	// (or static data)
void vf_reset (void) { for (int i = 0; i < nB; ++i) munmap (B[i].map, B[i].len); nB = 0; vf_fail_at = -1; vf_allocs = 0; vf_err[0] = 0; vf_gen = 0; vf_born = vf_gone = 0; }
typedef u64 (*fn_t)(u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64,u64);
int vf_call (void* f, u64* a, u64* ret)
{
    try { *ret = ((fn_t)f)(a[0],a[1],a[2],a[3],a[4],a[5],a[6],a[7],a[8],a[9],a[10],a[11]); return 0; }
    catch (...) { return 1; }
}
}
// ---- two threads on one atomic, through the function under contract: the failing history for a step that is not indivisible
#include <pthread.h>
#include <time.h>
template <typename T> struct Race {
    typedef T (*F2) (T*, T); typedef T (*F1) (T*); typedef void (*V2) (T*, T); typedef bool (*C3) (T*, T*, T); typedef T (*L1) (const T*); typedef bool (*B1) (T*);
    T a __attribute__((aligned(64))); char pad [64]; T b __attribute__((aligned(64))); char pad2 [64];
    int in __attribute__((aligned(64))); volatile int go, bad, stop; const char* kind; void* fn; double end; const char* why;
    enum { N = 40000 };
    T got [2][N]; int n [2]; long wins [2];
    volatile int turn [2]; T seen [2];
    static double now (void) { timespec t; clock_gettime (CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec*1e-9; }
    void fail (const char* w) { if (!bad) { why = w; bad = 1; } }
    bool is (const char* k) const { return !strcmp (kind, k); }
    bool one (T v, T* r) {	// one call of the operation under contract; false: it returns nothing
	char k = kind[0];
	if (is ("inc") || is ("dec") || is ("inc_post") || is ("dec_post")) { *r = ((F1)fn)(&a); return true; }
	(void) k; size_t l = strlen (kind);
	if (l > 2 && !strcmp (kind + l - 2, "eq")) { ((V2)fn)(&a, v); return false; }
	*r = ((F2)fn)(&a, v); return true;
    }
    void run (int me) {
	T mine = me ? 2 : 1; bool add = strstr (kind, "add") || is ("inc") || is ("inc_post"), sub = strstr (kind, "sub") || is ("dec") || is ("dec_post");
	if (add || sub) {
	    for (int i = 0; i < N; ++i) { T r = 0; if (one (1, &r)) got[me][n[me]++] = r; }
	} else if (strstr (kind, "or") && !strstr (kind, "xor") && !is ("store")) {
	    for (int i = 0; i < N && !bad; ++i) {
		T r = 0; bool has = one (mine, &r);
		if (!(__atomic_load_n (&a, __ATOMIC_SEQ_CST) & mine)) fail ("a bit set by one thread is lost");
		bool post = strstr (kind, "or_fetch");
		if (has && !!(r & mine) != post) fail ("the returned value is not the value of the step");
		__atomic_fetch_and (&a, T(~mine), __ATOMIC_SEQ_CST);
	    }
	} else if (strstr (kind, "and")) {
	    for (int i = 0; i < N && !bad; ++i) {
		__atomic_fetch_or (&a, mine, __ATOMIC_SEQ_CST);
		T r = 0; bool has = one (T(~mine), &r), post = strstr (kind, "and_fetch");
		if (__atomic_load_n (&a, __ATOMIC_SEQ_CST) & mine) fail ("a bit cleared by one thread comes back");
		if (has && !!(r & mine) == post) fail ("the returned value is not the value of the step");
	    }
	} else if (strstr (kind, "xor")) {
	    for (int i = 0; i < N && !bad; ++i) {
		T r = 0; one (mine, &r);
		if (!!(__atomic_load_n (&a, __ATOMIC_SEQ_CST) & mine) != !(i & 1)) fail ("a bit flipped by one thread is lost");
	    }
	}
    }
    void run2 (int me) {	// both threads contend for one bit
	bool x = is ("exchange") || is ("tas"), fo = is ("fetch_or"), fa = is ("fetch_and"), fx = is ("fetch_xor"), xf = is ("xor_fetch"), of = is ("or_fetch"), af = is ("and_fetch");
	if (x || fo || fa)
	    for (int i = 0; i < N && !bad; ++i) {
		bool mine = is ("tas") ? !((B1)fn)(&a) : x ? !((F2)fn)(&a, 1) : fo ? !(((F2)fn)(&a, 1) & 1) : !!(((F2)fn)(&a, 0) & 1);
		if (!mine) continue;
		if (__atomic_fetch_add (&in, 1, __ATOMIC_SEQ_CST)) fail ("two threads found the old value");
		__atomic_fetch_sub (&in, 1, __ATOMIC_SEQ_CST);
		__atomic_store_n (&a, T(fa), __ATOMIC_SEQ_CST);
	    }
	else if (fx || xf)
	    for (int i = 0; i < N; ++i) wins[me] += ((F2)fn)(&a, 1) & 1 ? 1 : -1;
	else if (of || af)
	    for (int i = 0; i < N && !bad; ++i) {
		if (me) { if (of) __atomic_fetch_and (&a, T(~3), __ATOMIC_SEQ_CST); else __atomic_fetch_or (&a, 3, __ATOMIC_SEQ_CST); }
		else if ((((F2)fn)(&a, of ? T(1) : T(~1)) & 1) != T(of)) fail ("the returned value is not the value of the step");
	    }
	else if (strstr (kind, "cas"))
	    for (int i = 0; i < N && !bad; ++i) {
		T e = __atomic_load_n (&a, __ATOMIC_SEQ_CST), e0 = e; int k = 0;
		while (!((C3)fn)(&a, &e, e0 + 1)) { if (e == e0 && is ("cas")) { fail ("failed although it found the expected value"); break; } e0 = e; if (++k > 1000000) { fail ("never succeeds"); break; } }
	    }
	else if (is ("store") || is ("asg")) {
	    const T v = T(0x5a5a5a5a5a5a5a5aull);
	    for (int i = 0; i < N && !bad; ++i) if (me) ((V2)fn)(&a, i & 1 ? v : T(~v)); else { T r = __atomic_load_n (&a, __ATOMIC_SEQ_CST); if (r && r != v && r != T(~v)) fail ("a value nobody stored"); }
	} else if (is ("load") || is ("conv")) {
	    const T v = T(0x5a5a5a5a5a5a5a5aull);
	    for (int i = 0; i < N && !bad; ++i) if (me) __atomic_store_n (&a, i & 1 ? v : T(~v), __ATOMIC_SEQ_CST); else { T r = ((L1)fn)(&a); if (r && r != v && r != T(~v)) fail ("a value nobody stored"); }
	}
    }
    void run3 (int me) {	// store, then look at the other cell: not both may miss
	for (int i = 1; i < 4000 && !bad; ++i) {
	    T* m = me ? &b : &a; T* o = me ? &a : &b;
	    __atomic_store_n (&turn[me], i, __ATOMIC_SEQ_CST); while (__atomic_load_n (&turn[!me], __ATOMIC_SEQ_CST) < i) if (bad) return;
	    ((V2)fn)(m, T(i)); seen[me] = __atomic_load_n (o, __ATOMIC_RELAXED);
	    __atomic_thread_fence (__ATOMIC_SEQ_CST);
	    __atomic_fetch_add (&in, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n (&in, __ATOMIC_SEQ_CST) < 2*i) if (bad) return;
	    if (!me && seen[0] != T(i) && __atomic_load_n (&seen[1], __ATOMIC_SEQ_CST) != T(i)) fail ("two stores, and neither thread sees the other's");
	    __atomic_fetch_add (&stop, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n (&stop, __ATOMIC_SEQ_CST) < 2*i) if (bad) return;
	}
    }
    int phase;
    struct Arg { Race* r; int me; };
    static void* thr (void* p) { Arg* a = (Arg*) p; Race* r = a->r; __atomic_fetch_add (&r->go, 1, __ATOMIC_SEQ_CST); while (__atomic_load_n (&r->go, __ATOMIC_SEQ_CST) < 2) {} r->phase == 0 ? r->run (a->me) : r->phase == 1 ? r->run2 (a->me) : r->run3 (a->me); return nullptr; }
    static const char* test (const char* kind, void* fn, double sec) {
	Race* r = (Race*) mmap (nullptr, sizeof(Race), PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0); double end = now() + sec; static char* used = (char*) mmap (nullptr, 2*N+2, PROT_READ|PROT_WRITE, MAP_PRIVATE|MAP_ANONYMOUS, -1, 0);
	do for (int phase = 0; phase < 3; ++phase) {
	    if (phase == 2 && strcmp (kind, "store") && strcmp (kind, "asg")) continue;
	    memset ((void*) r, 0, sizeof(Race)); r->kind = kind; r->fn = fn; r->phase = phase;
	    if (phase == 1 && !strcmp (kind, "fetch_and")) r->a = 1;
	    const T a0 = r->a; Arg g[2] = {{r,0},{r,1}}; pthread_t t[2];
	    for (int i = 0; i < 2; ++i) if (pthread_create (&t[i], nullptr, thr, &g[i])) return nullptr;
	    for (int i = 0; i < 2; ++i) pthread_join (t[i], nullptr);
	    if (r->bad) return r->why;
	    bool add = strstr (kind, "add") || !strcmp (kind, "inc") || !strcmp (kind, "inc_post"), sub = strstr (kind, "sub") || !strcmp (kind, "dec") || !strcmp (kind, "dec_post");
	    if (!phase && (add || sub)) {
		if (r->a != T(a0 + (add ? T(2*N) : T(-2*N)))) return "an update is lost";
		memset (used, 0, 2*N+2);
		for (int i = 0; i < 2; ++i) for (int k = 0; k < r->n[i]; ++k) { T v = add ? r->got[i][k] : T(-r->got[i][k]); if (v > T(2*N)) return "a returned value out of range"; if (used[v]++) return "two steps return the same value"; }
	    }
	    if (phase == 1 && strstr (kind, "cas") && r->a != T(2*N)) return "an update is lost";
	    if (phase == 1 && (!strcmp (kind, "fetch_xor") || !strcmp (kind, "xor_fetch")) && r->wins[0] + r->wins[1]) return "the returned values do not alternate";
	} while (now() < end);
	return nullptr;
    }
};
extern "C" const char* vf_race (const char* kind, int w, void* fn, double sec)
    { return w == 8 ? Race<u64>::test (kind, fn, sec) : w == 4 ? Race<u32>::test (kind, fn, sec) : Race<uint8_t>::test (kind, fn, sec); }
