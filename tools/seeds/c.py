HEAD = r'''
#include <ualgo.h>
#include <memblock.h>
#include <ustring.h>
#include <ulimits.h>
#include <uexception.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''

SEEDS = [
dict(id="s03a", prop="C03", needs="clearing a string that owns storage and then using or destroying it",
 breaks="clearing a string drops its allocation without freeing it",
 edits=[("ustring.cc", "    if (!(n | memblock::capacity()))\n	return relink (\"\",0);", "    if (!n) {\n	memblock::unlink();\n	return relink (\"\",0);\n    }")],
 demo=HEAD + r"""
int main() {
    size_t before = mallinfo2().uordblks;
    for (unsigned i = 0; i < 2000; ++i) { string s (500u, 'x'); s.clear(); CHECK (s.size() == 0); s.append ("abc"); CHECK (s == "abc"); }
    CHECK (mallinfo2().uordblks < before + 100000);
    return 0;
}"""),
dict(id="s03b", prop="C03", needs="inserting characters into a string with spare capacity whose old contents were longer",
 breaks="the text is not terminated after inserting repeated characters",
 edits=[("ustring.cc", "    fill_n (ip, n, c);\n    *end() = 0;\n    return iterator(ip);", "    fill_n (ip, n, c);\n    return iterator(ip);")],
 demo=HEAD + r"""
int main() {
    string s (40u, 'x'); s.resize (10); s.insert (s.begin()+5, 3u, 'y');
    CHECK (s.size() == 13); CHECK (strlen(s.c_str()) == 13);
    string t ("hello world, hello"); t.erase (t.begin(), 7u); t.insert (t.begin()+2, 2u, 'q');
    CHECK (strlen(t.c_str()) == t.size());
    return 0;
}"""),
dict(id="s03c", prop="C03", needs="inserting a substring whose end lies beyond the source string",
 breaks="insert of a substring copies past the end of the source",
 edits=[("ustring.h", "insert (iat(ip), s.iat(sp), s.iat(sp + slen)); return *this; }", "insert (iat(ip), s.iat(sp), s.iat(sp) + slen); return *this; }")],
 demo=HEAD + r"""
int main() {
    string a ("0123"), b ("abcdef");
    a.insert (2, b, 4, 10); CHECK (a == "01ef23");
    a.insert (0, b, 6, 3); CHECK (a == "01ef23");
    return 0;
}"""),
dict(id="s04a", prop="C04", needs="a text whose last two characters are equal, first seen at a misaligned candidate",
 breaks="find skips over a match because the repeat of the final character is overlooked",
 edits=[("ustring.cc", "    pos_type lastPos = endi;\n", "    pos_type lastPos = endi - !!endi;\n")],
 demo=HEAD + r"""
int main() {
    string s ("xxaaxbaay"), n ("baa");
    CHECK (s.find (n) == 5);
    CHECK (string("zaabaa").find (n) == 3);
    CHECK (string("abaa").find (n) == 1);
    CHECK (string("cabaa").find (n, 1) == 2);
    for (unsigned k = 0; k < 12; ++k) { string t (k, 'a'); t += "baa"; t += "aab"; CHECK (t.find (n) == k); }
    return 0;
}"""),
dict(id="s04b", prop="C04", needs="only the final character qualifies",
 breaks="find_first_not_of does not look at the last character",
 edits=[("ustring.cc", "    for (size_type i = min(size_type(pos),size()); i < size(); ++ i)\n	if (s.find (at(i)) == npos)", "    for (size_type i = min(size_type(pos),size()); i+1 < size(); ++ i)\n	if (s.find (at(i)) == npos)")],
 demo=HEAD + r"""
int main() {
    string s ("aaaab"); CHECK (s.find_first_not_of (string("a")) == 4);
    CHECK (string("b").find_first_not_of (string("a")) == 0);
    CHECK (string("aaa").find_first_not_of (string("a")) == string::npos);
    return 0;
}"""),
dict(id="s04c", prop="C04", needs="two ranges of which the shorter is a prefix of the longer and the lengths differ by a multiple of 256",
 breaks="comparison of a range truncates the number of bytes compared",
 edits=[("ustring.cc", "    int rv = memcmp (first1, first2, min (len1, len2));", "    int rv = memcmp (first1, first2, min (uint16_t(len1), uint16_t(len2)));")],
 demo=HEAD + r"""
int main() {
    string a (70000u, 'x'), b (70000u, 'x');
    CHECK (!(a < b) && !(b < a)); b[69000] = 'y'; CHECK (a < b); CHECK (b.compare (a) > 0);
    return 0;
}"""),
]
