HEAD = r'''
#include <ualgo.h>
#include <upredalgo.h>
#include <uvector.h>
#include <stdio.h>
#include <stdlib.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s08a", prop="C08", needs="a range with at least three elements, a value greater than the last element but one only; size-dependent split of the range",
 breaks="upper_bound skips the element after the midpoint",
 edits=[("ualgo.h", """	if (value < *mid)
	    last = mid;
	else
	    first = mid + 1;""", """	if (value < *mid)
	    last = mid;
	else if (distance (mid, last) > 64)
	    first = mid + 2;
	else
	    first = mid + 1;""")],
 demo=HEAD + r'''
int main() {
    for (unsigned n = 0; n < 400; ++n) {
	vector<int> v (n);
	for (unsigned i = 0; i < n; ++i) v[i] = 2*i;
	for (int x = -1; x <= int(2*n); ++x) {
	    int want = x < 0 ? 0 : x/2 + 1; if (want > int(n)) want = n;
	    CHECK (upper_bound (v.begin(), v.end(), x) - v.begin() == want);
	}
    }
    return 0;
}'''),
dict(id="s08b", prop="C08", needs="a comparator that is not less and duplicates of the value at the end of the range",
 breaks="equal_range with a predicate stops one short when the equal run reaches the end of a range",
 edits=[("upredalgo.h", "    while (rv.second != last && !comp(value, *(rv.second)))\n\t++ rv.second;", "    while (distance (rv.second, last) > 1 && !comp(value, *(rv.second)))\n\t++ rv.second;\n    if (rv.first == rv.second && rv.first != last && !comp(value, *rv.first))\n\trv.second = last;")],
 demo=HEAD + r'''
int main() {
    for (unsigned n = 1; n < 6; ++n) for (unsigned k = 0; k <= n; ++k) {
	vector<int> v; for (unsigned i = 0; i < n; ++i) v.push_back (i < k ? 9 : 4);
	auto r = equal_range (v.begin(), v.end(), 4, greater<int>());
	CHECK (r.first - v.begin() == int(k)); CHECK (r.second == v.end());
    }
    return 0;
}'''),
dict(id="s09a", prop="C09", needs="the matching run preceded by a shorter run of matches",
 breaks="search_n does not reset its count after a mismatch following a partial run",
 edits=[("upredalgo.h", "	if (!comp (*first, value))\n	    n = 0;\n	else if (++n == count)", "	if (!comp (*first, value))\n	    n -= (n > 0);\n	else if (++n == count)")],
 demo=HEAD + r'''
int main() {
    int a[] = { 5, 5, 1, 5, 1, 5, 5, 5 };
    CHECK (search_n (a, a+8, 3, 5, equal_to<int>()) == a+5);
    CHECK (search_n (a, a+8, 2, 5, equal_to<int>()) == a);
    return 0;
}'''),
dict(id="s09b", prop="C09", needs="second range longer than what is left of the first, with a match overlapping the end",
 breaks="lexicographical_compare treats equal prefixes of different lengths wrongly",
 edits=[("upredalgo.h", "    return (first1 == last1) & (first2 != last2);", "    return first1 == last1;")],
 demo=HEAD + r'''
int main() {
    int a[] = { 1, 2, 3 }, b[] = { 1, 2, 3, 4 };
    CHECK (!lexicographical_compare (a, a+3, a, a+3));
    CHECK (lexicographical_compare (a, a+3, b, b+4));
    CHECK (!lexicographical_compare (b, b+4, a, a+3));
    return 0;
}'''),
dict(id="s10a", prop="C10", needs="several kept elements after a removed one, in non-uniform order",
 breaks="remove_if fills the hole with the last element and is no longer stable",
 edits=[("upredalgo.h", "    return remove_copy_if (first, last, first, pred);", "    while (first != last) {\n	if (!pred (*first)) ++first;\n	else if (first != --last) *first = *last;\n    }\n    return first;")],
 demo=HEAD + r'''
int main() {
    int a[] = { 1, 2, 3, 5, 7, 4, 9 };
    int* e = remove_if (a, a+7, [](int x) { return x % 2 == 0; });
    int w[] = { 1, 3, 5, 7, 9 };
    CHECK (e == a+5); for (int i = 0; i < 5; ++i) CHECK (a[i] == w[i]);
    return 0;
}'''),
dict(id="s10b", prop="C10", needs="a group of equivalent elements that is not transitive under the predicate, three long",
 breaks="unique_copy with a predicate compares neighbours instead of the last kept element",
 edits=[("upredalgo.h", "	while (++first != last)\n	    if (!binary_pred (*first, *result))\n		*++result = *first;", "	for (InputIterator prev = first; ++first != last; ++prev)\n	    if (!binary_pred (*first, *prev))\n		*++result = *first;")],
 demo=HEAD + r'''
int main() {
    int a[] = { 1, 2, 3, 10 }, r[4];
    int* e = unique_copy (a, a+4, r, [](int x, int y) { return x - y <= 1; });
    CHECK (e == r+3); CHECK (r[0] == 1 && r[1] == 3 && r[2] == 10);
    return 0;
}'''),
]
