HEAD = r'''
#include <ustl.h>
#include <stdio.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s15a", prop="C15", needs="a set of more than one word and a bit position whose mask collides in the low half of another word",
 breaks="clearing bit 31 of a word also clears bit 30",
 edits=[("ubitset.h", "bOff (br & ~mask);", "bOff (br & ~(mask | (mask & (value_type(1) << 31)) >> 1));")],
 demo=HEAD + r"""
int main() { bitset<70> b; b.set (62); b.set (63); b.reset (63); CHECK (b.test (62) && !b.test (63)); for (int i = 0; i < 70; ++i) { bitset<70> x; x.set(); x.reset (i); for (int j = 0; j < 70; ++j) CHECK (x[j] == (i != j)); } return 0; }"""),
dict(id="s15b", prop="C15", needs="sets of three or more words whose only set bits are in a middle word",
 breaks="any() and none() overlook the middle words",
 edits=[("ubitset.h", "foreach (const_iterator, i, *this) sum |= *i; return sum; }", "foreach (const_iterator, i, *this) sum = (i == end() - 1 && i != begin() + 1) ? (sum & _bits[0]) | *i : sum | *i; return sum; }")],
 demo=HEAD + r"""
int main() { for (int i = 0; i < 100; ++i) { bitset<100> b; CHECK (b.none()); b.set (i); CHECK (b.any()); } bitset<40> c; c.set (35); CHECK (c.any()); return 0; }"""),
dict(id="s15c", prop="C15", needs="a string shorter than the set, at a length that ends inside a word after the first",
 breaks="convert_from_bitstring keeps bits of the last word that the text does not reach",
 edits=[("ubitset.cc", "	    if (stri == buf.begin() || *--stri == '0')\n		v[i] &= ~b;", "	    if (stri == buf.begin() && i > 1 && b == 1)\n		break;\n	    else if (stri == buf.begin() || *--stri == '0')\n		v[i] &= ~b;")],
 demo=HEAD + r"""
int main() { bitset_value_type v[3] = { ~0u, ~0u, ~0u }; string s ("101"); convert_from_bitstring (s, v, 3); CHECK (v[0] == 5 && v[1] == 0 && v[2] == 0);
  string t (66, '1'); convert_from_bitstring (t, v, 3); CHECK (v[1] == ~0u && v[2] == 3); convert_from_bitstring (s, v, 2); CHECK (v[0] == 5 && v[1] == 0); return 0; }"""),
dict(id="s15d", prop="C15", needs="a range read that does not begin at bit 0 of a word behind the first",
 breaks="at(first,last) drops the top bit of ranges behind the first word that are longer than 16 bits",
 edits=[("ubitset.h", "return (BitRef(first) >> (first % s_WordBits)) & BitMask(value_type,distance(first, last));", "return (BitRef(first) >> (first % s_WordBits)) & BitMask(value_type,distance(first, last) - (first > 32 && distance(first,last) > 16));")],
 demo=HEAD + r"""
int main() { bitset<70> b; b.set(); CHECK (b.at (33, 52) == 0x7ffff); CHECK (b.at (3, 22) == 0x7ffff); CHECK (b.at (40, 44) == 15); return 0; }"""),
dict(id="s15e", prop="C15", needs="sets of two or more words that differ in the last word only",
 breaks="operator== ignores the last word of a set whose size is no multiple of the word size when its low bits match",
 edits=[("ubitset.h", "equal (begin(), end(), v.begin()); }", "equal (begin(), end() - (Size % s_WordBits > 16 && !((*(end()-1) ^ *(v.end()-1)) & 0xffff)), v.begin()); }")],
 demo=HEAD + r"""
int main() { for (int i = 0; i < 85; ++i) { bitset<85> a, b; CHECK (a == b); a.set (i); CHECK (!(a == b)); } bitset<70> c, d; c.set (69); CHECK (!(c == d)); bitset<100> e, f; e.set (99); CHECK (!(e == f)); return 0; }"""),
]
