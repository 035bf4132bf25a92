#include "k.h"
typedef memblock& M;
typedef memlink& L;
typedef const cmemlink& CL;
typedef const char* CP;
// construction and destruction
H(void) mb_ctor (void* m) { new (m) memblock; }
H(void) mb_ctor_pn (void* m, const void* p, size_t n) { new (m) memblock (p, n); }
H(void) mb_ctor_n (void* m, size_t n) { new (m) memblock (n); }
H(void) mb_ctor_cl (void* m, CL o) { new (m) memblock (o); }
H(void) mb_ctor_l (void* m, const memlink& o) { new (m) memblock (o); }
H(void) mb_ctor_mb (void* m, const memblock& o) { new (m) memblock (o); }
H(void) mb_ctor_move (void* m, M o) { new (m) memblock (static_cast<memblock&&> (o)); }
H(void) mb_dtor (M m) { m.memblock::~memblock(); }
H(void) mb_vdtor (M m) { m.~memblock(); }
// storage
H(void) mb_unlink (M m) { m.unlink(); }
H(void) mb_resize (M m, size_t n, bool x) { m.resize (n, x); }
H(void) mb_resize1 (M m, size_t n) { m.resize (n); }
H(void) mb_reserve (M m, size_t n, bool x) { m.reserve (n, x); }
H(void) mb_clear (M m) { m.clear(); }
H(void) mb_deallocate (M m) { m.deallocate(); }
H(void) mb_shrink (M m) { m.shrink_to_fit(); }
H(void) mb_manage (M m, void* p, size_t n) { m.manage (p, n); }
H(void) mb_managel (M m, L l) { m.manage (l); }
H(void) mb_copy_link (M m) { m.copy_link(); }
H(void) mb_assign_pn (M m, const void* p, size_t n) { m.assign (p, n); }
H(void) mb_assign_cl (M m, CL o) { m.assign (o); }
H(void) mb_eq_cl (M m, CL o) { m = o; }
H(void) mb_eq_l (M m, const memlink& o) { m = o; }
H(void) mb_eq_mb (M m, const memblock& o) { m = o; }
H(void) mb_eq_move (M m, M o) { m = static_cast<memblock&&> (o); }
H(void) mb_swap (M m, M o) { m.swap (o); }
H(void*) mb_insert (M m, CP p, size_t n) { return m.insert (p, n); }
H(void*) mb_erase (M m, CP p, size_t n) { return m.erase (p, n); }
// observers
H(size_t) mb_capacity (const memblock& m) { return m.capacity(); }
H(bool) mb_is_linked (const memblock& m) { return m.is_linked(); }
H(size_t) mb_max_size (const memblock& m) { return m.max_size(); }
// links
H(void) ml_link_cp (L m, const void* p, size_t n) { m.link (p, n); }
H(void) ml_link_p (L m, void* p, size_t n) { m.link (p, n); }
H(void) ml_link_cl (L m, CL o) { m.link (o); }
H(void) ml_link_l (L m, L o) { m.link (o); }
H(void) ml_link_cc (L m, const char* a, const char* b) { m.link ((const void*) a, (const void*) b); }
H(void) ml_link_vv (L m, char* a, char* b) { m.link ((void*) a, (void*) b); }
H(void) ml_relink (L m, void* p, size_t n) { m.relink (p, n); }
H(void) ml_unlink (L m) { m.unlink(); }
H(void) ml_eq_cl (L m, CL o) { m = o; }
H(void) ml_eq_l (L m, const memlink& o) { m = o; }
H(void) ml_resize (L m, size_t n) { m.resize (n); }
H(void) ml_swap (L m, L o) { m.swap (o); }
H(void) ml_fill (L m, CP p, const void* v, size_t es, size_t n) { m.fill (p, v, es, n); }
H(void) ml_fill1 (L m, CP p, const void* v, size_t es) { m.fill (p, v, es); }
H(void) ml_insert (L m, CP p, size_t n) { m.insert (p, n); }
H(void) ml_erase (L m, CP p, size_t n) { m.erase (p, n); }
H(void) ml_ctor_pn (void* m, void* p, size_t n) { new (m) memlink (p, n); }
H(void) ml_ctor_cpn (void* m, const void* p, size_t n) { new (m) memlink (p, n); }
H(void) ml_ctor_l (void* m, const memlink& o) { new (m) memlink (o); }
H(void) ml_ctor_cl (void* m, CL o) { new (m) memlink (o); }
H(void) cl_ctor_pn (void* m, const void* p, size_t n) { new (m) cmemlink (p, n); }
H(void) cl_ctor_cl (void* m, CL o) { new (m) cmemlink (o); }
H(void) cl_link (cmemlink& m, const void* p, size_t n) { m.link (p, n); }
H(void) cl_link_cl (cmemlink& m, CL o) { m.link (o); }
H(void) cl_link_cc (cmemlink& m, const char* a, const char* b) { m.link ((const void*) a, (const void*) b); }
H(void) cl_eq (cmemlink& m, CL o) { m = o; }
H(void) cl_swap (cmemlink& m, cmemlink& o) { m.swap (o); }
H(void) cl_unlink (cmemlink& m) { m.unlink(); }
H(bool) cl_equal (CL a, CL b) { return a == b; }
H(size_t) cl_size (CL m) { return m.size(); }
H(size_t) cl_rsize (CL m) { return m.readable_size(); }
H(size_t) cl_max_size (CL m) { return m.max_size(); }
H(bool) cl_empty (CL m) { return m.empty(); }
H(CP) cl_data (CL m) { return m.data(); }
H(CP) cl_cdata (CL m) { return m.cdata(); }
H(CP) cl_begin (CL m) { return m.begin(); }
H(CP) cl_end (CL m) { return m.end(); }
H(CP) cl_iat (CL m, size_t i) { return m.iat (i); }
H(char*) ml_data (L m) { return m.data(); }
H(char*) ml_begin (L m) { return m.begin(); }
H(char*) ml_end (L m) { return m.end(); }
H(char*) ml_iat (L m, size_t i) { return m.iat (i); }
H(size_t) ml_wsize (L m) { return m.writable_size(); }
