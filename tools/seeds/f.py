HEAD = r'''
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <pthread.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
static volatile int go;
static int ready;
static void both (void* (*f)(void*), void* a, void* b)
{
    go = 0; ready = 0; pthread_t t[2]; pthread_create (&t[0], 0, f, a); pthread_create (&t[1], 0, f, b);
    while (__atomic_load_n (&ready, __ATOMIC_SEQ_CST) < 2) {}
    go = 1; pthread_join (t[0], 0); pthread_join (t[1], 0);
}
static void line_up (void) { __atomic_add_fetch (&ready, 1, __ATOMIC_SEQ_CST); while (!go) {} }
'''
SEEDS = [
dict(id="s17a", prop="C17", needs="copying a shared_ptr that holds a null object (shared_ptr<T> (nullptr))",
 breaks="copies of a shared_ptr holding a null object are not counted, so its control block is released twice",
 edits=[("umemory.h", "_p (p._p) { if (_p) ++_p->refs; }", "_p (p._p) { if (p) ++_p->refs; }")],
 demo=HEAD + r"""
int main() { int* n = nullptr; shared_ptr<int> a (n); shared_ptr<int> b (a); CHECK (a.use_count() == 2); shared_ptr<int> c (b); CHECK (c.use_count() == 3); return 0; }"""),
dict(id="s17b", prop="C17", needs="assigning an auto_ptr to itself",
 breaks="self-assignment of auto_ptr gives up the object without releasing it",
 edits=[("umemory.h", "{ reset (p.release()); return *this; }\n    inline reference	operator* (void) const		{ return *_p; }\n    inline pointer	operator-> (void) const		{ return _p; }\n    inline bool		operator== (const pointer p) const	{ return _p == p; }\n    inline bool		operator== (const auto_ptr<T>& p)", "{ reset (p.get()); p.release(); return *this; }\n    inline reference	operator* (void) const		{ return *_p; }\n    inline pointer	operator-> (void) const		{ return _p; }\n    inline bool		operator== (const pointer p) const	{ return _p == p; }\n    inline bool		operator== (const auto_ptr<T>& p)")],
 demo=HEAD + r"""
int main() { int* p = new int (1); auto_ptr<int> a (p), b; b = a; CHECK (b.get() == p && !a.get()); auto_ptr<int>& r = b; b = r; CHECK (b.get() == p); return 0; }"""),
dict(id="s17c", prop="C17", needs="moving a scope guard that has been released already",
 breaks="a released scope_exit becomes active again when it is moved",
 edits=[("umemory.h", "_f(move(f._f)),_enabled(f._enabled) { f.release(); }", "_f(move(f._f)),_enabled(true) { f.release(); }")],
 demo=HEAD + r"""
static int n; struct F { void operator() (void) const { ++n; } };
int main() { { scope_exit<F> a ((F())); } CHECK (n == 1); { scope_exit<F> a ((F())); scope_exit<F> b (static_cast<scope_exit<F>&&>(a)); } CHECK (n == 2); { scope_exit<F> a ((F())); a.release(); scope_exit<F> b (static_cast<scope_exit<F>&&>(a)); } CHECK (n == 2); return 0; }"""),
dict(id="s23a", prop="C23", needs="two threads adding to one atomic at the same time and using the results",
 breaks="add_fetch reports a value read after its own update: two threads can both be told the same result",
 edits=[("uatomic.h", "{ return __atomic_add_fetch (&_v, v, order); }", "{ __atomic_add_fetch (&_v, v, order); return load (order); }")],
 demo=HEAD + r"""
static atomic<unsigned> a (0); static const unsigned N = 2000000; static unsigned char seen [2*N+1]; static int dupl;
static void* f (void*) { line_up(); for (unsigned i = 0; i < N; ++i) if (__atomic_exchange_n (&seen [a.add_fetch (1)], 1, __ATOMIC_SEQ_CST)) dupl = 1; return 0; }
int main() { for (int k = 0; k < 10 && !dupl; ++k) { a = 0; memset (seen, 0, sizeof(seen)); both (f, 0, 0); } CHECK (!dupl); return 0; }"""),
dict(id="s23b", prop="C23", needs="two threads setting different bits of one atomic at the same time",
 breaks="or_fetch loads and stores separately: an update made in between is lost",
 edits=[("uatomic.h", "{ return __atomic_or_fetch (&_v, v, order); }", "{ const T r = load (order) | v; store (r, order); return r; }")],
 demo=HEAD + r"""
static atomic<unsigned> a (0); static int lost;
static void* f (void* m) { unsigned b = (unsigned)(size_t) m; line_up(); for (unsigned i = 0; i < 2000000; ++i) { a.or_fetch (b); if (!(a.fetch_and (~b) & b)) lost = 1; } return 0; }
int main() { for (int k = 0; k < 10 && !lost; ++k) { a = 0; both (f, (void*)1, (void*)2); } CHECK (!lost); return 0; }"""),
dict(id="s23c", prop="C23", needs="the last two owners letting go in two threads at the same time",
 breaks="shared_ptr::reset decides whether it is the last owner before it lets go: two owners leaving together both stay out of the release and the object is never destroyed",
 edits=[("umemory.h", "				    if (ov && !--ov->refs)\n					delete ov;", "				    const bool last = ov && ov->refs.load() == 1;\n				    if (ov)\n					--ov->refs;\n				    if (last)\n					delete ov;")],
 demo=HEAD + r"""
static int gone; struct X { ~X (void) { __atomic_add_fetch (&gone, 1, __ATOMIC_SEQ_CST); } };
static const int N = 300000; static shared_ptr<X>* pa; static shared_ptr<X>* pb; static int turn [2];
static void* f (void* p) { shared_ptr<X>* a = (shared_ptr<X>*) p; int me = a == pb; line_up();
    for (int i = 0; i < N; ++i) { __atomic_store_n (&turn[me], i + 1, __ATOMIC_SEQ_CST); while (__atomic_load_n (&turn[!me], __ATOMIC_SEQ_CST) < i + 1) {} a[i].reset(); } return 0; }
int main() { for (int k = 0; k < 8; ++k) { pa = new shared_ptr<X> [N]; pb = new shared_ptr<X> [N]; gone = 0; turn[0] = turn[1] = 0;
    for (int i = 0; i < N; ++i) { pa[i].reset (new X); new (&pb[i]) shared_ptr<X> (pa[i]); } both (f, pa, pb); CHECK (gone == N); delete [] pa; delete [] pb; } return 0; }"""),
]
