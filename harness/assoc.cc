// ordered associative containers: sets and multisets of K, maps and multimaps K -> K, in ascending and descending order
#include "k.h"
typedef pair<K,K> KV;
#define COMMON(x,C,E,KEY) \
typedef C T##x; typedef T##x& R##x; typedef const T##x& C##x; typedef const E* I##x; \
H(void) a##x##_ctor (void* m) { new (m) T##x; } \
H(void) a##x##_ctor_v (void* m, C##x v) { new (m) T##x (v); } \
H(void) a##x##_ctor_move (void* m, R##x v) { new (m) T##x (static_cast<T##x&&> (v)); } \
H(void) a##x##_ctor_ii (void* m, I##x a, I##x b) { new (m) T##x (a, b); } \
H(void) a##x##_ctor_n (void* m, size_t n) { new (m) T##x (n); } \
H(void) a##x##_dtor (R##x m) { m.~T##x(); } \
H(void) a##x##_eq (R##x m, C##x v) { m = v; } \
H(void) a##x##_eq_move (R##x m, R##x v) { m = static_cast<T##x&&> (v); } \
H(void) a##x##_swap (R##x m, R##x v) { m.swap (v); } \
H(void) a##x##_clear (R##x m) { m.clear(); } \
H(size_t) a##x##_size (C##x m) { return m.size(); } \
H(E*) a##x##_begin (R##x m) { return m.begin(); } \
H(E*) a##x##_end (R##x m) { return m.end(); } \
H(const E*) a##x##_cbegin (C##x m) { return m.begin(); } \
H(const E*) a##x##_cend (C##x m) { return m.end(); } \
H(E*) a##x##_find (R##x m, const KEY& k) { return m.find (k); } \
H(const E*) a##x##_cfind (C##x m, const KEY& k) { return m.find (k); } \
H(E*) a##x##_lower (R##x m, const KEY& k) { return m.lower_bound (k); } \
H(const E*) a##x##_clower (C##x m, const KEY& k) { return m.lower_bound (k); } \
H(E*) a##x##_upper (R##x m, const KEY& k) { return m.upper_bound (k); } \
H(const E*) a##x##_cupper (C##x m, const KEY& k) { return m.upper_bound (k); } \
H(void) a##x##_range (R##x m, const KEY& k, E*& a, E*& b) { T##x::range_t r = m.equal_range (k); a = r.first; b = r.second; } \
H(void) a##x##_crange (C##x m, const KEY& k, const E*& a, const E*& b) { T##x::const_range_t r = m.equal_range (k); a = r.first; b = r.second; } \
H(size_t) a##x##_count (C##x m, const KEY& k) { return m.count (k); } \
H(bool) a##x##_comp (C##x m, const KEY& a, const KEY& b) { return m.key_comp()(a, b); } \
H(bool) a##x##_vcomp (C##x m, const E& a, const E& b) { return m.value_comp()(a, b); } \
H(void) a##x##_assign (R##x m, I##x a, I##x b) { m.assign (a, b); } \
H(void) a##x##_push (R##x m, const E& v) { m.push_back (v); } \
H(void) a##x##_insert_ii (R##x m, I##x a, I##x b) { m.insert (a, b); } \
H(void) a##x##_insert_il (R##x m, const E& a, const E& b) { m.insert ({a, b}); } \
H(void) a##x##_ctor_il (void* m, const E& a, const E& b) { new (m) T##x ({a, b}); } \
H(void) a##x##_erase_k (R##x m, const KEY& k) { m.erase (k); } \
H(E*) a##x##_erase (R##x m, E* p) { return m.erase (p); } \
H(E*) a##x##_erase_ii (R##x m, E* a, E* b) { return m.erase (a, b); } \
H(E*) a##x##_hintm (R##x m, I##x h, E& v) { return m.insert (h, static_cast<E&&> (v)); } \
H(E*) a##x##_ehint (R##x m, I##x h, const E& v) { return m.emplace_hint (h, v); }
#define HINT(x,E) \
H(E*) a##x##_hint (R##x m, I##x h, const E& v) { return m.insert (h, v); }
#define UNIQUE(x,E) \
H(E*) a##x##_insert (R##x m, const E& v, bool& i) { pair<E*,bool> r = m.insert (v); i = r.second; return r.first; } \
H(E*) a##x##_insertm (R##x m, E& v, bool& i) { pair<E*,bool> r = m.insert (static_cast<E&&> (v)); i = r.second; return r.first; } \
H(E*) a##x##_emplace (R##x m, const E& v, bool& i) { pair<E*,bool> r = m.emplace (v); i = r.second; return r.first; } \
H(E*) a##x##_emplace_back (R##x m, const E& v, bool& i) { pair<E*,bool> r = m.emplace_back (v); i = r.second; return r.first; }
#define MULTI(x,E) \
H(E*) a##x##_insert (R##x m, const E& v) { return m.insert (v); } \
H(E*) a##x##_insertm (R##x m, E& v) { return m.insert (static_cast<E&&> (v)); } \
H(E*) a##x##_emplace (R##x m, const E& v) { return m.emplace (v); } \
H(E*) a##x##_emplace_back (R##x m, const E& v) { return m.emplace_back (v); }
#define MAPS(x) \
H(K*) a##x##_index (R##x m, const K& k) { return &m[k]; } \
H(const K*) a##x##_cindex (C##x m, const K& k) { return &m[k]; } \
H(K*) a##x##_at (R##x m, const K& k) { return &m.at (k); } \
H(const K*) a##x##_cat (C##x m, const K& k) { return &m.at (k); } \
H(const KV*) a##x##_data (C##x m, const K& v) { return m.find_data (v); } \
H(KV*) a##x##_wdata (R##x m, const K& v) { return m.find_data (v); } \
H(const KV*) a##x##_data_ii (C##x m, const K& v, const KV* a, const KV* b) { return m.find_data (v, a, b); }
typedef set<K> Cs; typedef set<K,greater<K> > Csg; typedef multiset<K> Cu; typedef multiset<K,greater<K> > Cug;
typedef map<K,K> Cm; typedef map<K,K,greater<K> > Cmg; typedef multimap<K,K> Cw; typedef multimap<K,K,greater<K> > Cwg;
COMMON(s,Cs,K,K) UNIQUE(s,K) HINT(s,K)
COMMON(sg,Csg,K,K) UNIQUE(sg,K) HINT(sg,K)
COMMON(u,Cu,K,K) MULTI(u,K) HINT(u,K)
COMMON(ug,Cug,K,K) MULTI(ug,K) HINT(ug,K)
COMMON(m,Cm,KV,K) UNIQUE(m,KV) MAPS(m) HINT(m,KV)
COMMON(mg,Cmg,KV,K) UNIQUE(mg,KV) MAPS(mg) HINT(mg,KV)
COMMON(w,Cw,KV,K) MULTI(w,KV)
COMMON(wg,Cwg,KV,K) MULTI(wg,KV)
H(size_t) au_erase_n (Ru m, const K& k) { return m.erase (k); }
H(size_t) aug_erase_n (Rug m, const K& k) { return m.erase (k); }
