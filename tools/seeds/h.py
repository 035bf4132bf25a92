HEAD = r'''
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s18a", prop="C18", needs="a 64-bit value above 2^32 and a grain that is a power of two",
 breaks="rounding to a power of two grain masks with a 32-bit complement and loses the upper half of large values",
 edits=[("uutility.h", "    { return n - n % grain; }", "    { return grain & (grain-1) ? n - n % grain : n & ~unsigned(grain-1); }")],
 demo=HEAD + r"""
int main() { for (size_t g = 1; g < 40; ++g) for (uint64_t n = 0; n < 1ull<<40; n = n*3+1) { CHECK (AlignDown (n, g) == n/g*g); CHECK (Align (n, g) == (n+g-1)/g*g); } return 0; }"""),
dict(id="s18b", prop="C18", needs="an operation where the order of the operands matters",
 breaks="the generalised accumulate folds from the wrong side: op(element, sum) instead of op(sum, element)",
 edits=[("unumeric.h", "	init = binary_op (init, *first++);", "	init = binary_op (*first++, init);")],
 demo=HEAD + r"""
int main() { int a[] = { 9, 8, 7 }; CHECK (accumulate (a, a+3, 100, minus<int>()) == 76); return 0; }"""),
dict(id="s18c", prop="C18", needs="an operation where the order of the two factors matters",
 breaks="the generalised inner product calls the product operation with its arguments exchanged",
 edits=[("unumeric.h", "	init = sumOp (init, productOp (*first1++, *first2++));", "	init = sumOp (init, productOp (*first2++, *first1++));")],
 demo=HEAD + r"""
int main() { int a[] = { 9, 8, 7 }, b[] = { 1, 2, 3 }; int r = inner_product (a, a+3, b, 100, plus<int>(), minus<int>()); CHECK (r == 118); return 0; }"""),
]
