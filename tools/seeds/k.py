HEAD = r'''
#include <ustl.h>
#include <stdio.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
struct E { int k, t; bool operator< (const E& o) const { return k < o.k; } };
'''
SEEDS = [
dict(id="s12a", prop="C12", needs="equal elements in an array of more than two, where an equal one precedes a smaller one",
 breaks="stable_sort moves an element in front of equal ones (sorted, but not stable)",
 edits=[("ualgo.h", "	for (j = i; j-- > first && comp(*i, *j);) {}", "	for (j = i; j-- > first && (comp(*i, *j) || (j == first && !comp(*j, *i)));) {}")],
 demo=HEAD + r"""
int main() { E a[3] = {{2,0},{3,1},{3,2}}; stable_sort (a, a+3); CHECK (a[1].t == 1 && a[2].t == 2);
  E b[4] = {{5,0},{3,1},{5,2},{3,3}}; stable_sort (b, b+4); CHECK (b[0].t == 1 && b[1].t == 3 && b[2].t == 0 && b[3].t == 2);
  for (int m = 0; m < 243; ++m) { E c[5]; for (int i = 0, q = m; i < 5; ++i, q /= 3) { c[i].k = q % 3; c[i].t = i; }
    stable_sort (c, c+5); for (int i = 0; i+1 < 5; ++i) CHECK (c[i].k < c[i+1].k || (c[i].k == c[i+1].k && c[i].t < c[i+1].t)); } return 0; }"""),
dict(id="s12b", prop="C12", needs="output range shorter than the input, with a late small element",
 breaks="partial_sort_copy ignores elements that come once the output is full, unless they are the smallest",
 edits=[("upredalgo.h", "	if (i == result_last)\n	    continue;", "	if (i == result_last || (rend == result_last && i + 1 == rend && i != result_first))\n	    continue;")],
 demo=HEAD + r"""
int main() { int a[5] = {5,1,9,7,3}, r[3]; int* e = partial_sort_copy (a, a+5, r, r+3); CHECK (e == r+3); CHECK (r[0] == 1 && r[1] == 3 && r[2] == 5);
  int b[4] = {1,5,9,6}, q[3]; partial_sort_copy (b, b+4, q, q+3); CHECK (q[0] == 1 && q[1] == 5 && q[2] == 6); return 0; }"""),
dict(id="s12c", prop="C12", needs="three or more unmatched elements in front of a single match from the other half",
 breaks="stable_partition changes the order of the elements that do not match",
 edits=[("upredalgo.h", "    rotate (l, m, r);\n    return l + distance (m, r);", "    if (m - l > 2 && r - m == 1)\n	iter_swap (l, m);\n    else\n	rotate (l, m, r);\n    return l + distance (m, r);")],
 demo=HEAD + r"""
static bool odd (int x) { return x & 1; }
int main() { for (int m = 0; m < 1024; ++m) { int a[10]; for (int i = 0; i < 10; ++i) a[i] = 2*i + ((m >> i) & 1);
  int* p = stable_partition (a, a+10, &odd); CHECK (p - a == __builtin_popcount (m)); for (int i = 0; i < 10; ++i) CHECK (odd(a[i]) == (a+i < p)); 
  for (int i = 0; i+1 < 10; ++i) CHECK (a+i+1 == p || a[i] < a[i+1]); }
  return 0; }"""),
dict(id="s12d", prop="C12", needs="second range exhausted exactly when one element of the first remains",
 breaks="merge drops the last element of the first range when the second ran out and it is not less than the last one written",
 edits=[("ualgo.h", "    if (first1 < last1)\n	return copy (first1, last1, result);", "    if (first1 < last1 - (first2 == last2 && last1 - first1 == 1 && !(*(last2-1) < *first1)))\n	return copy (first1, last1, result);")],
 demo=HEAD + r"""
int main() { int a[3] = {1,3,5}, b[3] = {2,4,6}, r[7] = {0}; int* e = merge (a, a+3, b, b+3, r); CHECK (e == r+6); for (int i = 0; i < 6; ++i) CHECK (r[i] == i+1);
  int c[2] = {1,5}, d[2] = {2,5}; e = merge (c, c+2, d, d+2, r); CHECK (e == r+4 && r[3] == 5); int g[2] = {5,5}, h[1] = {5}; e = merge (g, g+2, h, h+1, r); CHECK (e == r+3);
  int k[1] = {5}, l[1] = {5}; e = merge (k, k+1, l, l+1, r); CHECK (e == r+2); return 0; }"""),
dict(id="s13a", prop="C13", needs="multisets in which a value is left over in the first range after a match",
 breaks="set_difference drops every copy of a value that the second range has once",
 edits=[("upredalgo.h", """	if (!b1ge2)
	    *result++ = *first1;
	first1 += b2ge1;
	first2 += b1ge2;""", """	if (!b1ge2)
	    *result++ = *first1;
	first1 += b2ge1;
	first2 += b1ge2 & !(b2ge1 && first1 != last1 && !comp (*first2, *first1));""")],
 demo=HEAD + r"""
int main() { int a[3] = {1,1,2}, b[2] = {1,3}, r[3]; int* e = set_difference (a, a+3, b, b+2, r); CHECK (e == r+2 && r[0] == 1 && r[1] == 2); return 0; }"""),
dict(id="s13b", prop="C13", needs="multisets with repeated common values",
 breaks="set_intersection keeps the position in the second range after a match",
 edits=[("upredalgo.h", "	if (b1ge2 & b2ge1)\n	    *result++ = *first1;\n	first1 += b2ge1;\n	first2 += b1ge2;", "	if (b1ge2 & b2ge1)\n	    *result++ = *first1;\n	first1 += b2ge1;\n	first2 += b1ge2 & !(b2ge1 && first1 != last1 && !comp (*first2, *first1));")],
 demo=HEAD + r"""
int main() { int a[3] = {1,1,2}, b[2] = {1,2}, r[3]; int* e = set_intersection (a, a+3, b, b+2, r); CHECK (e == r+2 && r[0] == 1 && r[1] == 2); return 0; }"""),
dict(id="s13c", prop="C13", needs="multisets: the second range needs two copies of a value of which the first has one",
 breaks="includes accepts one copy for several",
 edits=[("upredalgo.h", "	first2 += !comp (*first1, *first2);\n    }\n    return first2 == last2;", "	while (first2 != last2 && !comp (*first1, *first2) && !comp (*first2, *first1)) ++first2;\n    }\n    return first2 == last2;")],
 demo=HEAD + r"""
int main() { int a[3] = {1,2,3}, b[2] = {2,2}, d[4] = {1,2,2,3}; CHECK (!includes (a, a+3, b, b+2)); CHECK (includes (d, d+4, b, b+2)); return 0; }"""),
dict(id="s13d", prop="C13", needs="a first range with repeated elements that the second lacks",
 breaks="set_symmetric_difference omits an element of the first range equivalent to the one written before",
 edits=[("upredalgo.h", """	if (b1l2)
	    *result++ = *first1;
	else if (b2l1)""", """	if (b1l2) {
	    *result++ = *first1;
	    while (first1 + 1 < last1 && !comp (*first1, first1[1])) ++first1;
	} else if (b2l1)""")],
 demo=HEAD + r"""
int main() { int a[3] = {1,1,3}, b[2] = {3,4}, r[5]; int* e = set_symmetric_difference (a, a+3, b, b+2, r); CHECK (e == r+3 && r[0] == 1 && r[1] == 1 && r[2] == 4); return 0; }"""),
dict(id="s14a", prop="C14", needs="repeated elements behind the pivot",
 breaks="next_permutation swaps the pivot with an equivalent element",
 edits=[("upredalgo.h", "	    while (!comp (*i, *--j)) {}", "	    while (comp (*--j, *i)) {}")],
 demo=HEAD + r"""
int main() { int a[4] = {1,2,2,1}; CHECK (next_permutation (a, a+4)); CHECK (a[0] == 2 && a[1] == 1 && a[2] == 1 && a[3] == 2);
  int b[3] = {1,1,2}; int n = 1; while (next_permutation (b, b+3)) if (++n > 9) break; CHECK (n == 3); return 0; }"""),
dict(id="s14b", prop="C14", needs="prev_permutation of a sequence with a suffix of two elements or more",
 breaks="prev_permutation leaves the first suffix element in place",
 edits=[("upredalgo.h", "	    while (!comp (*--j, *i)) {}\n	    iter_swap (i, j);\n	    reverse (i + 1, last);", "	    while (!comp (*--j, *i)) {}\n	    iter_swap (i, j);\n	    reverse (i + 1 + (last - i > 4), last);")],
 demo=HEAD + r"""
int main() { int a[5] = {2,1,3,4,5}; CHECK (prev_permutation (a, a+5)); CHECK (a[0] == 1 && a[1] == 5 && a[2] == 4 && a[3] == 3 && a[4] == 2); return 0; }"""),
dict(id="s14c", prop="C14", needs="a range of two elements",
 breaks="prev_permutation gives up on ranges of two elements",
 edits=[("upredalgo.h", """constexpr bool prev_permutation (BidirectionalIterator first, BidirectionalIterator last, StrictWeakOrdering comp)
{
    if (distance (first, last) < 2)
	return false;
    BidirectionalIterator i = last;
    for (--i; i != first; ) {""", """constexpr bool prev_permutation (BidirectionalIterator first, BidirectionalIterator last, StrictWeakOrdering comp)
{
    if (distance (first, last) < 2)
	return false;
    BidirectionalIterator i = last;
    for (--i; i != first + 1 - (last - first > 2); ) {""")],
 demo=HEAD + r"""
int main() { int a[2] = {4,3}; CHECK (prev_permutation (a, a+2)); CHECK (a[0] == 3 && a[1] == 4); int b[3] = {2,1,3}; CHECK (prev_permutation (b, b+3)); CHECK (b[0] == 1 && b[1] == 3 && b[2] == 2); return 0; }"""),
]
