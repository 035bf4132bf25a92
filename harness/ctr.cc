// container forms of the algorithms (uctralgo.h), and class-type iterators
#include "k.h"
typedef const K* I;
typedef K* O;
struct Rng {
    typedef K value_type; typedef K* iterator; typedef const K* const_iterator;
    K *b, *e;
    iterator begin (void) { return b; }
    iterator end (void) { return e; }
    const_iterator begin (void) const { return b; }
    const_iterator end (void) const { return e; }
    size_t size (void) const { return e - b; }
    iterator erase (iterator f, iterator l) { for (; l != e; ++f, ++l) *f = *l; e = f; return f; }
};
#define M(f,l) Rng c = { (K*) (f), (K*) (l) }
#define CM(f,l) const Rng c = { (K*) (f), (K*) (l) }
H(O) hc_copy_if (O f, O l, O r) { M(f,l); return copy_if (c, r, Pr()); }
H(I) hc_find (I f, I l, const K& v) { CM(f,l); return find (c, v); }
H(I) hc_findm (I f, I l, const K& v) { M(f,l); return find (c, v); }
H(I) hc_find_if (I f, I l) { CM(f,l); return find_if (c, Pr()); }
H(I) hc_find_ifm (I f, I l) { M(f,l); return find_if (c, Pr()); }
H(size_t) hc_count (I f, I l, const K& v) { CM(f,l); return count (c, v); }
H(size_t) hc_count_if (I f, I l) { CM(f,l); return count_if (c, Pr()); }
H(O) hc_transform_ip (O f, O l) { M(f,l); transform (c, F1()); return c.e; }
H(O) hc_transform1 (I f, I l, O r) { M(f,l); return transform (c, r, F1()); }
H(O) hc_transform2 (I f, I l, I g, O r) { M(f,l); return transform (c, g, r, F2()); }
H(void) hc_replace (O f, O l, const K& a, const K& b) { M(f,l); replace (c, a, b); }
H(void) hc_replace_if (O f, O l, const K& b) { M(f,l); replace_if (c, Pr(), b); }
H(O) hc_replace_copy (I f, I l, O r, const K& a, const K& b) { CM(f,l); return replace_copy (c, r, a, b); }
H(O) hc_replace_copy_if (I f, I l, O r, const K& b) { CM(f,l); return replace_copy_if (c, r, Pr(), b); }
H(void) hc_fill (O f, O l, const K& v) { M(f,l); fill (c, v); }
H(void) hc_generate (O f, O l) { M(f,l); generate (c, Ge()); }
H(void) hc_random_shuffle (O f, O l) { M(f,l); random_shuffle (c); }
H(O) hc_remove_copy (I f, I l, O r, const K& v) { CM(f,l); return remove_copy (c, r, v); }
H(O) hc_remove_copy_if (I f, I l, O r) { CM(f,l); return remove_copy_if (c, r, Pr()); }
H(O) hc_remove (O f, O l, const K& v) { M(f,l); remove (c, v); return c.e; }
H(O) hc_remove_if (O f, O l) { M(f,l); remove_if (c, Pr()); return c.e; }
H(O) hc_unique_copy (I f, I l, O r) { CM(f,l); return unique_copy (c, r); }
H(O) hc_unique (O f, O l) { M(f,l); unique (c); return c.e; }
H(O) hc_unique_p (O f, O l) { M(f,l); unique (c, Bp()); return c.e; }
H(void) hc_reverse (O f, O l) { M(f,l); reverse (c); }
H(void) hc_rotate (O f, O l, off_t n) { M(f,l); rotate (c, n); }
H(I) hc_lower_bound (I f, I l, const K& v) { CM(f,l); return lower_bound (c, v); }
H(I) hc_lower_boundm (I f, I l, const K& v) { M(f,l); return lower_bound (c, v); }
H(I) hc_upper_bound (I f, I l, const K& v) { CM(f,l); return upper_bound (c, v); }
H(I) hc_upper_boundm (I f, I l, const K& v) { M(f,l); return upper_bound (c, v); }
H(bool) hc_binary_search (I f, I l, const K& v) { CM(f,l); return binary_search (c, v); }
H(bool) hc_binary_searchm (I f, I l, const K& v) { M(f,l); return binary_search (c, v); }
H(void) hc_equal_range (I f, I l, const K& v, I* a, I* b) { CM(f,l); auto r = equal_range (c, v); *a = r.first; *b = r.second; }
H(void) hc_equal_rangem (I f, I l, const K& v, I* a, I* b) { M(f,l); auto r = equal_range (c, v); *a = r.first; *b = r.second; }
// ---- generic (non-pointer) iterators
struct It {
    typedef K value_type; typedef ptrdiff_t difference_type; typedef K& reference; typedef K* pointer; typedef const K* const_pointer; typedef random_access_iterator_tag iterator_category;
    K* p;
    K& operator* (void) const { return *p; }
    It& operator++ (void) { ++p; return *this; }
    It& operator-- (void) { --p; return *this; }
    It operator++ (int) { It o = *this; ++p; return o; }
    It operator-- (int) { It o = *this; --p; return o; }
    It operator+ (ptrdiff_t n) const { return It { p + n }; }
    It operator- (ptrdiff_t n) const { return It { p - n }; }
    It& operator+= (ptrdiff_t n) { p += n; return *this; }
    ptrdiff_t operator- (const It& o) const { return p - o.p; }
    bool operator== (const It& o) const { return p == o.p; }
    bool operator!= (const It& o) const { return p != o.p; }
    bool operator< (const It& o) const { return p < o.p; }
    bool operator> (const It& o) const { return p > o.p; }
};
H(void) hi_rotate (O f, O m, O l) { rotate (It{f}, It{m}, It{l}); }
H(void) hi_reverse (O f, O l) { reverse (It{f}, It{l}); }
H(O) hi_copy (O f, O l, O r) { return copy (It{f}, It{l}, It{r}).p; }
H(O) hi_copy_backward (O f, O l, O r) { return copy_backward (It{f}, It{l}, It{r}).p; }
H(void) hi_fill (O f, O l, const K& v) { fill (It{f}, It{l}, v); }
H(O) hi_rotate_copy (O f, O m, O l, O r) { return rotate_copy (It{f}, It{m}, It{l}, It{r}).p; }
H(void) hi_random_shuffle (O f, O l) { random_shuffle (f, l); }
struct Acc { int* log; size_t n; void operator() (const K& k) { log[n++] = k.v; } };
H(size_t) hi_for_each (O f, O l, int* r) { return for_each (f, l, Acc{r,0}).n; }
H(size_t) hc_for_each (O f, O l, int* r) { M(f,l); return for_each (c, Acc{r,0}).n; }
H(size_t) hc_for_eachc (O f, O l, int* r) { CM(f,l); return for_each (c, Acc{r,0}).n; }
