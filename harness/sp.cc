// smart pointers over an element with a lifetime (Q), arrays of plain elements (K[]); atomics
#include "q.h"
#define PTR1(x,S,E) \
H(void) x##_ctor (void* m) { new (m) S; } \
H(void) x##_ctor_p (void* m, E* p) { new (m) S (p); } \
H(void) x##_dtor (S& m) { m.~S(); } \
H(E*) x##_get (const S& m) { return m.get(); } \
H(E*) x##_release (S& m) { return m.release(); } \
H(void) x##_reset_p (S& m, E* p) { m.reset (p); } \
H(void) x##_eq_p (S& m, E* p) { m = p; } \
H(const E*) x##_deref (const S& m) { return &*m; } \
H(const E*) x##_arrow (const S& m) { return m.operator->(); } \
H(bool) x##_cmp_p (const S& m, E* p) { return m == p; } \
H(bool) x##_cmp (const S& m, const S& p) { return m == p; }
#define PTRM(x,S,E) \
H(void) x##_ctor_move (void* m, S& p) { new (m) S (static_cast<S&&>(p)); } \
H(void) x##_eq_move (S& m, S& p) { m = static_cast<S&&>(p); } \
H(void) x##_swap (S& m, S& p) { m.swap (p); } \
H(void) x##_uswap (S& m, S& p) { ::ustl::swap (m, p); } \
H(bool) x##_bool (const S& m) { return bool(m); } \
H(bool) x##_not (const S& m) { return !m; } \
H(const E*) x##_index (const S& m, size_t i) { return &m[i]; } \
H(bool) x##_ncmp_p (const S& m, E* p) { return m != p; } \
H(bool) x##_less (const S& m, const S& p) { return m < p; }
typedef unique_ptr<Q> UQ; typedef unique_ptr<K> UK; typedef unique_ptr<K[]> UA; typedef shared_ptr<Q> SQ; typedef auto_ptr<Q> AQ; typedef unique_ptr<Q[]> UQA;
PTR1(uq,UQ,Q) PTRM(uq,UQ,Q)
H(void) uq_reset (UQ& m) { m.reset(); }
H(void) uq_make (void* m, int v) { new (m) UQ (make_unique<Q> (v)); }
PTR1(ua,UA,K) PTRM(ua,UA,K)
H(void) ua_make (void* m, size_t n) { new (m) UA (make_unique<K[]> (n)); }
H(void) uqa_dtor (UQA& m) { m.~UQA(); }
H(void) uqa_reset_p (UQA& m, Q* p) { m.reset (p); }
PTR1(aq,AQ,Q)
H(void) aq_ctor_a (void* m, AQ& p) { new (m) AQ (p); }
H(void) aq_eq_a (AQ& m, AQ& p) { m = p; }
H(void) sq_ctor (void* m) { new (m) SQ; }
H(void) sq_ctor_p (void* m, Q* p) { new (m) SQ (p); }
H(void) sq_ctor_copy (void* m, const SQ& p) { new (m) SQ (p); }
H(void) sq_dtor (SQ& m) { m.~SQ(); }
H(void) sq_reset (SQ& m) { m.reset(); }
H(void) sq_reset_p (SQ& m, Q* p) { m.reset (p); }
H(void) sq_eq_p (SQ& m, Q* p) { m = p; }
H(void) sq_eq (SQ& m, const SQ& p) { m = p; }
H(Q*) sq_get (const SQ& m) { return m.get(); }
H(size_t) sq_use_count (const SQ& m) { return m.use_count(); }
H(bool) sq_unique (const SQ& m) { return m.unique(); }
H(const Q*) sq_deref (const SQ& m) { return &*m; }
H(const Q*) sq_arrow (const SQ& m) { return m.operator->(); }
H(bool) sq_cmp_p (const SQ& m, Q* p) { return m == p; }
H(bool) sq_cmp (const SQ& m, const SQ& p) { return m == p; }
PTRM(sq,SQ,Q)
H(void) sq_make (void* m, int v) { new (m) SQ (make_shared<Q> (v)); }
// scope guards and resources
struct Del { void operator() (Q* p) const { delete p; } };
typedef unique_resource<Q*,Del> RQ;
H(void) rq_ctor (void* m, Q* p, bool on) { new (m) RQ (static_cast<Q*&&>(p), Del(), on); }
H(void) rq_ctor_move (void* m, RQ& r) { new (m) RQ (static_cast<RQ&&>(r)); }
H(void) rq_dtor (RQ& m) { m.~RQ(); }
H(void) rq_reset (RQ& m) { m.reset(); }
H(void) rq_reset_p (RQ& m, Q* p) { m.reset (static_cast<Q*&&>(p)); }
H(Q*) rq_release (RQ& m) { return m.release(); }
H(Q*) rq_get (RQ& m) { return m.get(); }
H(void) rq_eq_move (RQ& m, RQ& r) { m = static_cast<RQ&&>(r); }
H(void) rq_checked (void* m, Q* p, Q* bad) { new (m) RQ (make_unique_resource_checked (p, bad, Del())); }
struct Act { Q* p; void operator() (void) { delete p; } };
typedef scope_exit<Act> XQ;
H(void) xq_ctor (void* m, Q* p) { new (m) XQ (Act{p}); }
H(void) xq_ctor_move (void* m, XQ& p) { new (m) XQ (static_cast<XQ&&>(p)); }
H(void) xq_dtor (XQ& m) { m.~XQ(); }
H(void) xq_release (XQ& m) { m.release(); }
// atomics
typedef atomic<size_t> A8; typedef atomic<unsigned> A4;
#define ATO(x,A,T) \
H(void) x##_store (A& a, T v) { a.store (v); } \
H(T) x##_load (const A& a) { return a.load(); } \
H(T) x##_conv (const A& a) { return a; } \
H(void) x##_asg (A& a, T v) { a = v; } \
H(T) x##_exchange (A& a, T v) { return a.exchange (v); } \
H(bool) x##_cas (A& a, T& e, T v) { return a.compare_exchange_strong (e, v, memory_order_seq_cst, memory_order_seq_cst); } \
H(bool) x##_casw (A& a, T& e, T v) { return a.compare_exchange_weak (e, v); } \
H(bool) x##_casw2 (A& a, T& e, T v) { return a.compare_exchange_weak (e, v, memory_order_seq_cst, memory_order_seq_cst); } \
H(T) x##_fetch_add (A& a, T v) { return a.fetch_add (v); } \
H(T) x##_fetch_sub (A& a, T v) { return a.fetch_sub (v); } \
H(T) x##_fetch_and (A& a, T v) { return a.fetch_and (v); } \
H(T) x##_fetch_or (A& a, T v) { return a.fetch_or (v); } \
H(T) x##_fetch_xor (A& a, T v) { return a.fetch_xor (v); } \
H(T) x##_add_fetch (A& a, T v) { return a.add_fetch (v); } \
H(T) x##_sub_fetch (A& a, T v) { return a.sub_fetch (v); } \
H(T) x##_and_fetch (A& a, T v) { return a.and_fetch (v); } \
H(T) x##_or_fetch (A& a, T v) { return a.or_fetch (v); } \
H(T) x##_xor_fetch (A& a, T v) { return a.xor_fetch (v); } \
H(T) x##_inc (A& a) { return ++a; } \
H(T) x##_dec (A& a) { return --a; } \
H(T) x##_inc_post (A& a) { return a++; } \
H(T) x##_dec_post (A& a) { return a--; } \
H(void) x##_addeq (A& a, T v) { a += v; } \
H(void) x##_subeq (A& a, T v) { a -= v; } \
H(void) x##_andeq (A& a, T v) { a &= v; } \
H(void) x##_oreq (A& a, T v) { a |= v; } \
H(void) x##_xoreq (A& a, T v) { a ^= v; }
ATO(a8,A8,size_t) ATO(a4,A4,unsigned)
H(bool) af_tas (atomic_flag& f) { return f.test_and_set(); }
H(void) af_clear (atomic_flag& f) { f.clear(); }
