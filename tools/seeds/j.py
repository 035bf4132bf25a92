HEAD = r'''
#include <ustl.h>
#include <stdio.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s21a", prop="C21", needs="tuples that differ in the last element only",
 breaks="ordering of tuples ignores the last element",
 edits=[("utuple.h", "    for (uoff_t i = 0; i < N && t1[i] <= t2[i]; ++ i)\n", "    for (uoff_t i = 0; i+1 < N && t1[i] <= t2[i]; ++ i)\n")],
 demo=HEAD + r"""
int main() { tuple<3,int> a (1,2,3), b (1,2,4), d (1,3,0); CHECK (a < b); CHECK (!(b < a)); CHECK (a < d); CHECK (!(a < a)); return 0; }"""),
dict(id="s21b", prop="C21", needs="assignment of a list shorter than the tuple to a tuple with old content",
 breaks="assigning a short initializer list keeps the old tail instead of clearing it",
 edits=[("utuple.h", """    copy_n (v.begin(), isz, begin());
    fill_n (begin()+isz, N-isz, T());""", """    copy_n (v.begin(), isz, begin());
    if (!isz)
	fill_n (begin(), N, T());""")],
 demo=HEAD + r"""
int main() { tuple<5,int> a; fill (a, 7); a = {1, 2}; CHECK (a[0] == 1 && a[1] == 2 && a[2] == 0 && a[4] == 0); return 0; }"""),
dict(id="s21c", prop="C21", needs="post-decrement of a reverse iterator",
 breaks="post-decrement of a reverse iterator steps the wrong way",
 edits=[("uiterator.h", "operator-- (int) { reverse_iterator prev (*this); ++ _i; return prev; }", "operator-- (int) { reverse_iterator prev (*this); -- _i; return prev; }")],
 demo=HEAD + r"""
int main() { int a[4] = { 1, 2, 3, 4 }; reverse_iterator<int*> r (a+1); CHECK (*r == 1); CHECK (*r-- == 1); CHECK (*r == 2); return 0; }"""),
dict(id="s21d", prop="C21", needs="column of a matrix that is not square",
 breaks="column() strides by the number of rows",
 edits=[("umatrix.h", "    for (uoff_t i = 0; i < NY; ++ i, ++ dest, src += NX)", "    for (uoff_t i = 0; i < NY; ++ i, ++ dest, src += NY)")],
 demo=HEAD + r"""
int main() { matrix<3,2,int> m; for (int i = 0; i < 6; ++i) m.begin()[i] = i; CHECK (m.column(1)[0] == 1 && m.column(1)[1] == 4); matrix<2,2,int> q; for (int i = 0; i < 4; ++i) q.begin()[i] = i; CHECK (q.column(1)[1] == 3); return 0; }"""),
dict(id="s21e", prop="C21", needs="packed addition of four 32-bit integers with a carry out of the low half",
 breaks="addition of unsigned four-tuples loses the carry between 16-bit halves",
 edits=[("simd.h", "MMX_DBL_PKOP2_SPEC(4,uint32_t,plus,paddd)", "MMX_DBL_PKOP2_SPEC(4,uint32_t,plus,paddw)")],
 demo=HEAD + r"""
int main() { tuple<4,uint32_t> a (1,2,3,0xffff), b (1,2,3,1); simd::padd (a, b); CHECK (b[0] == 2 && b[3] == 0x10000); return 0; }"""),
dict(id="s21f", prop="C21", needs="product of matrices that do not commute",
 breaks="matrix product uses the element of the wrong matrix on the diagonal",
 edits=[("ulaalgo.h", "		dpv += m1[ry][x] * m2[x][rx];", "		dpv += m1[ry][x] * (rx < ry ? m2[rx][x] : m2[x][rx]);")],
 demo=HEAD + r"""
int main() { matrix<2,2,int> a, b; for (int i = 0; i < 4; ++i) { a.begin()[i] = i+1; b.begin()[i] = 2*i+1; } auto r = a*b; CHECK (r[0][0] == 1*1+2*5 && r[0][1] == 1*3+2*7 && r[1][0] == 3*1+4*5 && r[1][1] == 3*3+4*7); return 0; }"""),
]
