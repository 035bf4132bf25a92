// list, queue, stack and priority_queue over vectors of plain elements
#include "q.h"
typedef list<K> L; typedef L& RL; typedef const L& CL; typedef const K* I; typedef K* O;
H(void) l_ctor (void* m) { new (m) L; }
H(void) l_ctor_n (void* m, size_t n) { new (m) L (n); }
H(void) l_ctor_nv (void* m, size_t n, const K& v) { new (m) L (n, v); }
H(void) l_ctor_v (void* m, CL v) { new (m) L (v); }
H(void) l_ctor_ii (void* m, I a, I b) { new (m) L (a, b); }
H(void) l_ctor_move (void* m, RL v) { new (m) L (static_cast<L&&> (v)); }
H(void) l_ctor_il (void* m, const K& a, const K& b, const K& d) { new (m) L ({a, b, d}); }
H(void) l_dtor (RL m) { m.~L(); }
H(void) l_eq_move (RL m, RL v) { m = static_cast<L&&> (v); }
H(size_t) l_size (CL m) { return m.size(); }
H(I) l_begin (CL m) { return m.begin(); }
H(O) l_wbegin (RL m) { return m.begin(); }
H(I) l_end (CL m) { return m.end(); }
H(O) l_wend (RL m) { return m.end(); }
H(I) l_front (CL m) { return &m.front(); }
H(O) l_wfront (RL m) { return &m.front(); }
H(void) l_push_front (RL m, const K& v) { m.push_front (v); }
H(void) l_push_frontm (RL m, K& v) { m.push_front (static_cast<K&&> (v)); }
H(void) l_emplace_front (RL m, int v) { m.emplace_front (K{v}); }
H(void) l_pop_front (RL m) { m.pop_front(); }
H(void) l_remove (RL m, const K& v) { m.remove (v); }
H(void) l_remove_if (RL m) { m.remove_if (Pr()); }
H(void) l_reverse (RL m) { m.reverse(); }
H(void) l_unique (RL m) { m.unique(); }
H(void) l_sort (RL m) { m.sort(); }
H(void) l_merge (RL m, RL v) { m.merge (v); }
H(void) l_splice (RL m, O ip, RL v) { m.splice (ip, v); }
H(void) l_splice_f (RL m, O ip, RL v, O f) { m.splice (ip, v, f); }
H(void) l_splice_fl (RL m, O ip, RL v, O f, O l) { m.splice (ip, v, f, l); }
typedef deque<K> D;
H(void) d_push_back (D& m, const K& v) { m.push_back (v); }
H(void) d_push_front (D& m, const K& v) { m.push_front (v); }
H(void) d_pop_front (D& m) { m.pop_front(); }
H(void) d_pop_back (D& m) { m.pop_back(); }

typedef vector<K> V; typedef queue<K> Z; typedef Z& RZ; typedef const Z& CZ;
H(void) q_ctor (void* m) { new (m) Z; }
H(void) q_ctor_c (void* m, const V& v) { new (m) Z (v); }
H(void) q_ctor_cm (void* m, V& v) { new (m) Z (static_cast<V&&> (v)); }
H(void) q_ctor_v (void* m, CZ v) { new (m) Z (v); }
H(void) q_ctor_move (void* m, RZ v) { new (m) Z (static_cast<Z&&> (v)); }
H(void) q_dtor (RZ m) { m.~Z(); }
H(size_t) q_size (CZ m) { return m.size(); }
H(bool) q_empty (CZ m) { return m.empty(); }
H(I) q_front (CZ m) { return &m.front(); }
H(O) q_wfront (RZ m) { return &m.front(); }
H(I) q_back (CZ m) { return &m.back(); }
H(O) q_wback (RZ m) { return &m.back(); }
H(void) q_push (RZ m, const K& v) { m.push (v); }
H(void) q_emplace (RZ m, int v) { m.emplace (K{v}); }
H(void) q_pop (RZ m) { m.pop(); }
H(void) q_swap (RZ m, RZ v) { m.swap (v); }
H(void) q_eq_move (RZ m, RZ v) { m = static_cast<Z&&> (v); }

typedef stack<K> S; typedef S& RS; typedef const S& CS;
H(void) stk_ctor (void* m) { new (m) S; }
H(void) stk_ctor_c (void* m, const V& v) { new (m) S (v); }
H(void) stk_ctor_cm (void* m, V& v) { new (m) S (static_cast<V&&> (v)); }
H(void) stk_ctor_v (void* m, CS v) { new (m) S (v); }
H(void) stk_ctor_move (void* m, RS v) { new (m) S (static_cast<S&&> (v)); }
H(void) stk_dtor (RS m) { m.~S(); }
H(size_t) stk_size (CS m) { return m.size(); }
H(bool) stk_empty (CS m) { return m.empty(); }
H(I) stk_top (CS m) { return &m.top(); }
H(O) stk_wtop (RS m) { return &m.top(); }
H(void) stk_push (RS m, const K& v) { m.push (v); }
H(void) stk_emplace (RS m, int v) { m.emplace (K{v}); }
H(void) stk_pop (RS m) { m.pop(); }
H(void) stk_swap (RS m, RS v) { m.swap (v); }
H(void) stk_eq_move (RS m, RS v) { m = static_cast<S&&> (v); }
H(bool) stk_opeq (CS m, CS v) { return m == v; }

typedef priority_queue<K,V,Ld> Y; typedef Y& RY; typedef const Y& CY;
H(void) p_ctor (void* m, int d) { new (m) Y (Ld{d}); }
H(void) p_ctor_c (void* m, int d, const V& v) { new (m) Y (Ld{d}, v); }
H(void) p_ctor_cm (void* m, int d, V& v) { new (m) Y (Ld{d}, static_cast<V&&> (v)); }
H(void) p_ctor_ii (void* m, I a, I b, int d) { new (m) Y (a, b, Ld{d}); }
H(void) p_ctor_iim (void* m, I a, I b, int d, V& v) { new (m) Y (a, b, Ld{d}, static_cast<V&&> (v)); }
H(void) p_ctor_move (void* m, RY v) { new (m) Y (static_cast<Y&&> (v)); }
H(void) p_dtor (RY m) { m.~Y(); }
H(size_t) p_size (CY m) { return m.size(); }
H(bool) p_empty (CY m) { return m.empty(); }
H(I) p_top (CY m) { return &m.top(); }
H(void) p_push (RY m, const K& v) { m.push (v); }
H(void) p_emplace (RY m, int v) { m.emplace (K{v}); }
H(void) p_pop (RY m) { m.pop(); }
H(void) p_swap (RY m, RY v) { m.swap (v); }
H(void) p_eq_move (RY m, RY v) { m = static_cast<Y&&> (v); }

// elements with a lifetime
typedef list<Q> LQ; typedef queue<Q> ZQ; typedef stack<Q> SQ;
H(void) lq_dtor (LQ& m) { m.~LQ(); }
H(void) lq_push_front (LQ& m, const Q& v) { m.push_front (v); }
H(void) lq_pop_front (LQ& m) { m.pop_front(); }
H(void) lq_splice_fl (LQ& m, Q* ip, LQ& v, Q* f, Q* l) { m.splice (ip, v, f, l); }
H(void) qq_dtor (ZQ& m) { m.~ZQ(); }
H(void) qq_ctor_v (void* m, const ZQ& v) { new (m) ZQ (v); }
H(void) qq_ctor_move (void* m, ZQ& v) { new (m) ZQ (static_cast<ZQ&&> (v)); }
H(void) qq_push (ZQ& m, const Q& v) { m.push (v); }
H(void) qq_pop (ZQ& m) { m.pop(); }
H(void) qq_swap (ZQ& m, ZQ& v) { m.swap (v); }
H(void) stkq_dtor (SQ& m) { m.~SQ(); }
H(void) stkq_push (SQ& m, const Q& v) { m.push (v); }
H(void) stkq_pop (SQ& m) { m.pop(); }
