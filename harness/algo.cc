#include "k.h"
typedef const K* I;
typedef K* O;
// ---- read-only sequence algorithms
H(I) h_find (I f, I l, const K& v) { return find (f, l, v); }
H(I) h_find_if (I f, I l) { return find_if (f, l, Pr()); }
H(I) h_adjacent_find (I f, I l) { return adjacent_find (f, l); }
H(I) h_adjacent_find_p (I f, I l) { return adjacent_find (f, l, Bp()); }
H(void) h_mismatch (I f, I l, I g, I* a, I* b) { pair<I,I> r = mismatch (f, l, g); *a = r.first; *b = r.second; }
H(void) h_mismatch_p (I f, I l, I g, I* a, I* b) { pair<I,I> r = mismatch (f, l, g, Bp()); *a = r.first; *b = r.second; }
H(bool) h_equal (I f, I l, I g) { return equal (f, l, g); }
H(bool) h_equal_p (I f, I l, I g) { return equal (f, l, g, Bp()); }
H(size_t) h_count (I f, I l, const K& v) { return count (f, l, v); }
H(size_t) h_count_if (I f, I l) { return count_if (f, l, Pr()); }
H(I) h_search (I f, I l, I g, I m) { return search (f, l, g, m); }
H(I) h_search_p (I f, I l, I g, I m) { return search (f, l, g, m, Bp()); }
H(I) h_find_end (I f, I l, I g, I m) { return find_end (f, l, g, m); }
H(I) h_find_end_p (I f, I l, I g, I m) { return find_end (f, l, g, m, Bp()); }
H(I) h_search_n (I f, I l, size_t n, const K& v) { return search_n (f, l, n, v); }
H(I) h_search_n_p (I f, I l, size_t n, const K& v) { return search_n (f, l, n, v, Bp()); }
H(I) h_find_first_of (I f, I l, I g, I m) { return find_first_of (f, l, g, m); }
H(I) h_find_first_of_p (I f, I l, I g, I m) { return find_first_of (f, l, g, m, Bp()); }
H(bool) h_is_sorted (I f, I l) { return is_sorted (f, l); }
H(bool) h_is_sorted_c (I f, I l) { return is_sorted (f, l, Lt()); }
H(bool) h_lexicographical_compare (I f, I l, I g, I m) { return lexicographical_compare (f, l, g, m); }
H(bool) h_lexicographical_compare_c (I f, I l, I g, I m) { return lexicographical_compare (f, l, g, m, Lt()); }
H(I) h_max_element (I f, I l) { return max_element (f, l); }
H(I) h_min_element (I f, I l) { return min_element (f, l); }
H(I) h_max_element_c (I f, I l) { return max_element (f, l, Lt()); }
H(I) h_min_element_c (I f, I l) { return min_element (f, l, Lt()); }
H(void) h_minmax_element (I f, I l, I* a, I* b) { pair<I,I> r = minmax_element (f, l); *a = r.first; *b = r.second; }
H(void) h_minmax_element_c (I f, I l, I* a, I* b) { pair<I,I> r = minmax_element (f, l, Lt()); *a = r.first; *b = r.second; }
H(K) h_clamp (const K& v, const K& l, const K& h) { return clamp (v, l, h); }
H(K) h_clamp_c (const K& v, const K& l, const K& h) { return clamp (v, l, h, Lt()); }
// ---- binary search
H(I) h_lower_bound (I f, I l, const K& v) { return lower_bound (f, l, v); }
H(I) h_upper_bound (I f, I l, const K& v) { return upper_bound (f, l, v); }
H(bool) h_binary_search (I f, I l, const K& v) { return binary_search (f, l, v); }
H(void) h_equal_range (I f, I l, const K& v, I* a, I* b) { pair<I,I> r = equal_range (f, l, v); *a = r.first; *b = r.second; }
H(I) h_lower_bound_c (I f, I l, const K& v) { return lower_bound (f, l, v, Lt()); }
H(I) h_upper_bound_c (I f, I l, const K& v) { return upper_bound (f, l, v, Lt()); }
H(bool) h_binary_search_c (I f, I l, const K& v) { return binary_search (f, l, v, Lt()); }
H(void) h_equal_range_c (I f, I l, const K& v, I* a, I* b) { pair<I,I> r = equal_range (f, l, v, Lt()); *a = r.first; *b = r.second; }
// ---- mutating sequence algorithms
H(O) h_copy (I f, I l, O r) { return copy (f, l, r); }
H(O) h_copy_n (I f, size_t n, O r) { return copy_n (f, n, r); }
H(O) h_copy_if (I f, I l, O r) { return copy_if (f, l, r, Pr()); }
H(O) h_copy_backward (I f, I l, O r) { return copy_backward (f, l, r); }
H(void) h_fill (O f, O l, const K& v) { fill (f, l, v); }
H(O) h_fill_n (O f, size_t n, const K& v) { return fill_n (f, n, v); }
H(O) h_swap_ranges (O f, O l, O r) { return swap_ranges (f, l, r); }
H(O) h_transform1 (I f, I l, O r) { return transform (f, l, r, F1()); }
H(O) h_transform2 (I f, I l, I g, O r) { return transform (f, l, g, r, F2()); }
H(void) h_replace (O f, O l, const K& a, const K& b) { replace (f, l, a, b); }
H(void) h_replace_if (O f, O l, const K& b) { replace_if (f, l, Pr(), b); }
H(O) h_replace_copy (I f, I l, O r, const K& a, const K& b) { return replace_copy (f, l, r, a, b); }
H(O) h_replace_copy_if (I f, I l, O r, const K& b) { return replace_copy_if (f, l, r, Pr(), b); }
H(void) h_generate (O f, O l) { generate (f, l, Ge()); }
H(O) h_generate_n (O f, size_t n) { return generate_n (f, n, Ge()); }
H(void) h_reverse (O f, O l) { reverse (f, l); }
H(O) h_reverse_copy (I f, I l, O r) { return reverse_copy (f, l, r); }
H(O) h_rotate_copy (I f, I m, I l, O r) { return rotate_copy (f, m, l, r); }
H(O) h_rotate (O f, O m, O l) { return rotate (f, m, l); }
H(O) h_remove_copy (I f, I l, O r, const K& v) { return remove_copy (f, l, r, v); }
H(O) h_remove (O f, O l, const K& v) { return remove (f, l, v); }
H(O) h_remove_copy_if (I f, I l, O r) { return remove_copy_if (f, l, r, Pr()); }
H(O) h_remove_if (O f, O l) { return remove_if (f, l, Pr()); }
H(O) h_unique_copy (I f, I l, O r) { return unique_copy (f, l, r); }
H(O) h_unique (O f, O l) { return unique (f, l); }
H(O) h_unique_copy_p (I f, I l, O r) { return unique_copy (f, l, r, Bp()); }
H(O) h_unique_p (O f, O l) { return unique (f, l, Bp()); }
