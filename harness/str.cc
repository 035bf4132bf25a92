#include "k.h"
typedef string& S;
typedef const string& CS;
typedef const char* CP;
typedef char* P;
// construction
H(void) s_ctor (void* m) { new (m) string; }
H(void) s_copy (void* m, CS o) { new (m) string (o); }
H(void) s_ctor_sub (void* m, CS o, size_t p, size_t n) { new (m) string (o, p, n); }
H(void) s_ctor_cl (void* m, const cmemlink& l) { new (m) string (l); }
H(void) s_ctor_cp (void* m, CP s) { new (m) string (s); }
H(void) s_ctor_pn (void* m, CP s, size_t n) { new (m) string (s, n); }
H(void) s_ctor_pp (void* m, CP s, CP e) { new (m) string (s, e); }
H(void) s_ctor_nc (void* m, size_t n, char c) { new (m) string (n, c); }
H(void) s_ctor_move (void* m, S o) { new (m) string (static_cast<string&&> (o)); }
H(void) s_dtor (S m) { m.~string(); }
// sizing
H(void) s_resize (S m, size_t n) { m.resize (n); }
H(void) s_resize_c (S m, size_t n, char c) { m.resize (n, c); }
H(void) s_clear (S m) { m.clear(); }
H(void) s_reserve (S m, size_t n, bool x) { m.reserve (n, x); }
H(void) s_shrink (S m) { m.shrink_to_fit(); }
H(void) s_copy_link (S m) { m.copy_link(); }
H(size_t) s_capacity (CS m) { return m.capacity(); }
H(size_t) s_max_size (CS m) { return m.max_size(); }
H(size_t) s_size (CS m) { return m.size(); }
H(bool) s_empty (CS m) { return m.empty(); }
H(CP) s_c_str (CS m) { return m.c_str(); }
H(CP) s_data (CS m) { return m.data(); }
H(P) s_wdata (S m) { return m.data(); }
H(CP) s_begin (CS m) { return m.begin(); }
H(CP) s_end (CS m) { return m.end(); }
H(P) s_wbegin (S m) { return m.begin(); }
H(P) s_wend (S m) { return m.end(); }
H(CP) s_cbegin (CS m) { return m.cbegin(); }
H(CP) s_cend (CS m) { return m.cend(); }
H(CP) s_rbegin (CS m) { return m.rbegin().base(); }
H(CP) s_rend (CS m) { return m.rend().base(); }
H(CP) s_iat (CS m, size_t i) { return m.iat (i); }
H(P) s_wiat (S m, size_t i) { return m.iat (i); }
H(uint8_t) s_at (CS m, size_t i) { return m.at (i); }
H(P) s_wat (S m, size_t i) { return &m.at (i); }
H(uint8_t) s_index (CS m, size_t i) { return m[i]; }
H(uint8_t) s_front (CS m) { return m.front(); }
H(uint8_t) s_back (CS m) { return m.back(); }
H(P) s_wfront (S m) { return &m.front(); }
H(P) s_wback (S m) { return &m.back(); }
H(CP) s_conv (CS m) { return m; }
// append
H(void) s_append_pp (S m, CP a, CP b) { m.append (a, b); }
H(void) s_append_pn (S m, CP a, size_t n) { m.append (a, n); }
H(void) s_append_cp (S m, CP a) { m.append (a); }
H(void) s_append_nc (S m, size_t n, char c) { m.append (n, c); }
H(void) s_append_s (S m, CS o) { m.append (o); }
H(void) s_append_sub (S m, CS o, size_t p, size_t n) { m.append (o, p, n); }
H(void) s_push_back (S m, char c) { m.push_back (c); }
H(void) s_pop_back (S m) { m.pop_back(); }
H(void) s_pluseq_s (S m, CS o) { m += o; }
H(void) s_pluseq_c (S m, char c) { m += c; }
H(void) s_pluseq_u (S m, unsigned char c) { m += c; }
H(void) s_pluseq_cp (S m, CP p) { m += p; }
H(void) s_plus (void* r, CS a, CS b) { new (r) string (a + b); }
H(void) s_plus_cp (void* r, CP a, CS b) { new (r) string (a + b); }
// assign
H(void) s_assign_pp (S m, CP a, CP b) { m.assign (a, b); }
H(void) s_assign_pn (S m, CP a, size_t n) { m.assign (a, n); }
H(void) s_assign_cp (S m, CP a) { m.assign (a); }
H(void) s_assign_s (S m, CS o) { m.assign (o); }
H(void) s_assign_sub (S m, CS o, size_t p, size_t n) { m.assign (o, p, n); }
H(void) s_assign_nc (S m, size_t n, char c) { m.assign (n, c); }
H(void) s_assign_move (S m, S o) { m.assign (static_cast<string&&> (o)); }
H(void) s_eq_s (S m, CS o) { m = o; }
H(void) s_eq_c (S m, char c) { m = c; }
H(void) s_eq_cp (S m, CP p) { m = p; }
H(void) s_eq_move (S m, S o) { m = static_cast<string&&> (o); }
H(void) s_swap (S m, S o) { m.swap (o); }
H(void) s_uswap (S m, S o) { ::ustl::swap (m, o); }
// copy out
H(size_t) s_copy_out (CS m, P p, size_t n, size_t pos) { return m.copy (p, n, pos); }
H(size_t) s_copyto (CS m, P p, size_t n, size_t pos) { return m.copyto (p, n, pos); }
H(void) s_substr (void* r, CS m, size_t p, size_t n) { new (r) string (m.substr (p, n)); }
// insert
H(void) s_ins_pnc (S m, size_t ip, size_t n, char c) { m.insert (ip, n, c); }
H(void) s_ins_pcp (S m, size_t ip, CP s) { m.insert (ip, s); }
H(void) s_ins_ppn (S m, size_t ip, CP s, size_t n) { m.insert (ip, s, n); }
H(void) s_ins_ps (S m, size_t ip, CS s) { m.insert (ip, s); }
H(void) s_ins_psub (S m, size_t ip, CS s, size_t p, size_t n) { m.insert (ip, s, p, n); }
H(void) s_ins_ipn (S m, int ip, CP s, size_t n) { m.insert (ip, s, n); }
H(void) s_ins_inc (S m, int ip, size_t n, char c) { m.insert (ip, n, c); }
H(P) s_ins_itnc (S m, CP it, size_t n, char c) { return m.insert (it, n, c); }
H(P) s_ins_itc (S m, CP it, char c) { return m.insert (it, c); }
H(P) s_ins_itpp (S m, CP it, CP a, CP b) { return m.insert (it, a, b); }
H(P) s_ins_itppn (S m, CP it, CP a, CP b, size_t n) { return m.insert (it, a, b, n); }
H(P) s_ins_itcpn (S m, CP it, CP s, size_t n) { return m.insert (it, s, n); }
// erase
H(P) s_er_itn (S m, CP it, size_t n) { return m.erase (it, n); }
H(P) s_er_it (S m, CP it) { return m.erase (it); }
H(void) s_er_pn (S m, size_t p, size_t n) { m.erase (p, n); }
H(void) s_er_p (S m, size_t p) { m.erase (p); }
H(void) s_er_in (S m, int p, size_t n) { m.erase (p, n); }
H(P) s_er_itit (S m, CP a, CP b) { return m.erase (a, b); }
H(P) s_eraser (S m, size_t a, size_t b) { return m.eraser (a, b); }
// replace
H(void) s_rep_ppn (S m, CP f, CP l, CP a, CP b, size_t n) { m.replace (f, l, a, b, n); }
H(void) s_rep_pp (S m, CP f, CP l, CP a, CP b) { m.replace (f, l, a, b); }
H(void) s_rep_s (S m, CP f, CP l, CS s) { m.replace (f, l, s); }
H(void) s_rep_cp (S m, CP f, CP l, CP s) { m.replace (f, l, s); }
H(void) s_rep_pn (S m, CP f, CP l, CP s, size_t n) { m.replace (f, l, s, n); }
H(void) s_rep_nc (S m, CP f, CP l, size_t n, char c) { m.replace (f, l, n, c); }
H(void) s_rep_ns (S m, size_t p, size_t n, CS s) { m.replace (p, n, s); }
H(void) s_rep_nsub (S m, size_t p, size_t n, CS s, size_t sp, size_t sn) { m.replace (p, n, s, sp, sn); }
H(void) s_rep_npn (S m, size_t p, size_t n, CP s, size_t sn) { m.replace (p, n, s, sn); }
H(void) s_rep_ncp (S m, size_t p, size_t n, CP s) { m.replace (p, n, s); }
H(void) s_rep_nnc (S m, size_t p, size_t n, size_t k, char c) { m.replace (p, n, k, c); }
// search
H(size_t) s_find_c (CS m, char c, size_t p) { return m.find (c, p); }
H(size_t) s_find_s (CS m, CS s, size_t p) { return m.find (s, p); }
H(size_t) s_find_u (CS m, unsigned char c, size_t p) { return m.find (c, p); }
H(size_t) s_find_p (CS m, CP s, size_t p, size_t n) { return m.find (s, p, n); }
H(size_t) s_rfind_c (CS m, char c, size_t p) { return m.rfind (c, p); }
H(size_t) s_rfind_s (CS m, CS s, size_t p) { return m.rfind (s, p); }
H(size_t) s_rfind_u (CS m, unsigned char c, size_t p) { return m.rfind (c, p); }
H(size_t) s_rfind_p (CS m, CP s, size_t p, size_t n) { return m.rfind (s, p, n); }
#define FO(f) \
H(size_t) s_##f##_s (CS m, CS s, size_t p) { return m.f (s, p); } \
H(size_t) s_##f##_c (CS m, char c, size_t p) { return m.f (c, p); } \
H(size_t) s_##f##_u (CS m, unsigned char c, size_t p) { return m.f (c, p); } \
H(size_t) s_##f##_p (CS m, CP s, size_t p, size_t n) { return m.f (s, p, n); }
FO(find_first_of) FO(find_first_not_of) FO(find_last_of) FO(find_last_not_of)
// comparison
H(int) s_cmp4 (CP a, CP b, CP c, CP d) { return string::compare (a, b, c, d); }
H(int) s_cmp_s (CS m, CS s) { return m.compare (s); }
H(int) s_cmp_nns (CS m, size_t p, size_t n, CS s) { return m.compare (p, n, s); }
H(int) s_cmp_nnsnn (CS m, size_t p, size_t n, CS s, size_t sp, size_t sn) { return m.compare (p, n, s, sp, sn); }
H(int) s_cmp_cp (CS m, CP s) { return m.compare (s); }
H(int) s_cmp_nnpn (CS m, size_t p, size_t n, CP s, size_t sn) { return m.compare (p, n, s, sn); }
H(int) s_cmp_nncp (CS m, size_t p, size_t n, CP s) { return m.compare (p, n, s); }
H(bool) s_opeq_s (CS m, CS s) { return m == s; }
H(bool) s_opne_s (CS m, CS s) { return m != s; }
H(bool) s_opeq_cp (CS m, CP s) { return m == s; }
H(bool) s_opne_cp (CS m, CP s) { return m != s; }
H(bool) s_opeq_c (CS m, char c) { return m == c; }
H(bool) s_opne_c (CS m, char c) { return m != c; }
H(bool) s_opeq_u (CS m, unsigned char c) { return m == c; }
H(bool) s_opne_u (CS m, unsigned char c) { return m != c; }
H(bool) s_oplt_s (CS m, CS s) { return m < s; }
H(bool) s_oplt_cp (CS m, CP s) { return m < s; }
H(bool) s_oplt_c (CS m, char c) { return m < c; }
H(bool) s_oplt_u (CS m, unsigned char c) { return m < c; }
H(bool) s_opgt_s (CS m, CS s) { return m > s; }
H(bool) s_ople_s (CS m, CS s) { return m <= s; }
H(bool) s_opge_s (CS m, CS s) { return m >= s; }
H(bool) s_opgt_cp (CS m, CP s) { return m > s; }
H(bool) s_cp_eq (CS m, CP s) { return s == m; }
H(bool) s_cp_ne (CS m, CP s) { return s != m; }
H(bool) s_cp_lt (CS m, CP s) { return s < m; }
H(bool) s_cp_gt (CS m, CP s) { return s > m; }
// formatting: the text the C library produces for the format is the argument itself
H(int) s_format (S m, CP text) { return m.format ("%s", text); }
