HEAD = r'''
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
static int alive = 0;
struct T { int v, l; T() : v(0), l(77) { ++alive; } T(int x) : v(x), l(77) { ++alive; } T(const T& o) : v(o.v), l(77) { ++alive; } ~T() { l = 0; --alive; } T& operator= (const T& o) { if (l != 77) { printf ("failed: assignment to raw storage\n"); exit (1); } v = o.v; return *this; } };
'''
SEEDS = [
dict(id="s20a", prop="C20", needs="an element type whose assignment needs a constructed target",
 breaks="uninitialized_fill assigns to raw storage instead of constructing in it",
 edits=[("umemory.h", """    for (; first < last; ++first)
	construct_at (&*first, v);
}""", """    for (; first < last; ++first)
	*first = v;
}""")],
 demo=HEAD + r"""
int main() { T a (3); T* p = (T*) calloc (3, sizeof(T)); int b = alive; uninitialized_fill (p, p+3, a); CHECK (alive == b+3); for (int i = 0; i < 3; ++i) CHECK (p[i].v == 3 && p[i].l == 77); return 0; }"""),
dict(id="s20b", prop="C20", needs="a temporary buffer whose allocation failed",
 breaks="make_temporary_buffer reports its requested size although there is no buffer",
 edits=[("umemory.h", "ptrdiff_t(p ? n : 0)", "ptrdiff_t(n)")],
 demo=HEAD + r"""
int main() { int x[4]; CHECK (make_temporary_buffer (x, 4, (int*) 0).second == 4); auto r = make_temporary_buffer (NULL, 4, (int*) 0); CHECK (!r.first && r.second == 0); return 0; }"""),
dict(id="s20d", prop="C20", needs="a range of elements with a destructor, moved from as raw storage is filled by count",
 breaks="uninitialized_move_n leaves one element unconstructed when the count is odd",
 edits=[("umemory.h", """    for (++n; --n; ++result, ++first)
	construct_at (&*result, move(*first));
    return result;""", """    for (++n; --n; ++result, ++first) {
	construct_at (&*result, move(*first));
	if (n == 3) { ++result; ++first; --n; }
    }
    return result;""")],
 demo=HEAD + r"""
int main() { T a[5] = { 1, 2, 3, 4, 5 }; T* p = (T*) calloc (5, sizeof(T)); for (int n = 0; n < 6; ++n) { int b = alive; uninitialized_move_n (a, n, p); CHECK (alive == b+n); } return 0; }"""),
dict(id="s20c", prop="C20", needs="default construction of an empty range of plain elements followed by others",
 breaks="default-constructing an empty range of plain elements clears the element after it",
 edits=[("umemory.h", "	memset (static_cast<void*>(first), 0, max(distance(first,last),0)*sizeof(value_type));", "	do *first = value_type(); while (++first < last);")],
 demo=HEAD + r"""
int main() { int a[4] = { 1, 2, 3, 4 }; uninitialized_default_construct (a+1, a+3); CHECK (a[0] == 1 && !a[1] && !a[2] && a[3] == 4); uninitialized_default_construct (a, a); CHECK (a[0] == 1); return 0; }"""),
]
