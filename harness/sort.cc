#include "k.h"
#include <ustl/uheap.h>
typedef const K* I;
typedef K* O;
H(O) h_merge (I f1, I l1, I f2, I l2, O r) { return merge (f1, l1, f2, l2, r); }
H(O) c_merge (O f1, O l1, O f2, O l2, O r) { return merge (f1, l1, f2, l2, r); }
H(void) h_inplace_merge (O f, O m, O l) { inplace_merge (f, m, l); }
H(void) h_stable_sort (O f, O l) { stable_sort (f, l); }
H(void) h_stable_sort_c (O f, O l) { stable_sort (f, l, Lt()); }
H(void) h_partial_sort (O f, O m, O l) { partial_sort (f, m, l); }
H(void) h_partial_sort_c (O f, O m, O l) { partial_sort (f, m, l, Lt()); }
H(void) h_nth_element (O f, O m, O l) { nth_element (f, m, l); }
H(void) h_nth_element_c (O f, O m, O l) { nth_element (f, m, l, Lt()); }
H(void) h_sort (O f, O l) { sort (f, l); }
H(void) h_sort_c (O f, O l) { sort (f, l, Lt()); }
H(O) h_psc (I f, I l, O rf, O rl) { return partial_sort_copy (f, l, rf, rl); }
H(O) h_psc_c (I f, I l, O rf, O rl) { return partial_sort_copy (f, l, rf, rl, Lt()); }
H(O) h_stable_partition (O f, O l) { return stable_partition (f, l, Pr()); }
H(O) h_partition (O f, O l) { return partition (f, l, Pr()); }
H(bool) h_includes (I f1, I l1, I f2, I l2) { return includes (f1, l1, f2, l2); }
H(bool) h_includes_c (I f1, I l1, I f2, I l2) { return includes (f1, l1, f2, l2, Lt()); }
#define SETOP(n) \
H(O) h_##n (I f1, I l1, I f2, I l2, O r) { return n (f1, l1, f2, l2, r); } \
H(O) h_##n##_c (I f1, I l1, I f2, I l2, O r) { return n (f1, l1, f2, l2, r, Lt()); }
SETOP(set_union) SETOP(set_intersection) SETOP(set_difference) SETOP(set_symmetric_difference)
H(bool) h_next_permutation (O f, O l) { return next_permutation (f, l); }
H(bool) h_next_permutation_c (O f, O l) { return next_permutation (f, l, Lt()); }
H(bool) h_prev_permutation (O f, O l) { return prev_permutation (f, l); }
H(bool) h_prev_permutation_c (O f, O l) { return prev_permutation (f, l, Lt()); }
H(void) h_reverse (O f, O l) { reverse (f, l); }
H(bool) h_is_heap (I f, I l) { return is_heap (f, l); }
H(bool) h_is_heap_c (I f, I l) { return is_heap (f, l, Lt()); }
H(void) h_make_heap (O f, O l) { make_heap (f, l); }
H(void) h_make_heap_c (O f, O l) { make_heap (f, l, Lt()); }
H(void) h_push_heap (O f, O l) { push_heap (f, l); }
H(void) h_push_heap_c (O f, O l) { push_heap (f, l, Lt()); }
H(void) h_pop_heap (O f, O l) { pop_heap (f, l); }
H(void) h_pop_heap_c (O f, O l) { pop_heap (f, l, Lt()); }
H(void) h_sort_heap (O f, O l) { sort_heap (f, l); }
H(void) h_sort_heap_c (O f, O l) { sort_heap (f, l, Lt()); }
H(void) h_make_heap_d (O f, O l, int d) { make_heap (f, l, Ld{d}); }
H(void) h_push_heap_d (O f, O l, int d) { push_heap (f, l, Ld{d}); }
H(void) h_pop_heap_d (O f, O l, int d) { pop_heap (f, l, Ld{d}); }
H(void) h_sort_heap_d (O f, O l, int d) { sort_heap (f, l, Ld{d}); }
