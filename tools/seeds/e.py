HEAD = r'''
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s05a", prop="C05", needs="a character that takes six or seven bytes",
 breaks="the sequence length of characters of six and more bytes is measured short, so they do not decode",
 edits=[("utf8.h", "    for (; c & mask; ++nBytes)\n", "    for (; nBytes < 5 && (c & mask); ++nBytes)\n")],
 demo=HEAD + r"""
int main() { wchar_t w = 0x04000001; string s; s.push_back (w); CHECK (s.size() == 6); CHECK (*utf8in (s.c_str()) == w); w = 0x800; s.clear(); s.push_back (w); CHECK (*utf8in (s.c_str()) == w); return 0; }"""),
dict(id="s05b", prop="C05", needs="asking for the base of an iterator that is on a character of four or more bytes",
 breaks="utf8in_iterator::base() points into the middle of long characters",
 edits=[("utf8.h", "return _i - (Utf8Bytes(_v) - 1); }", "return _i - (uint32_t(_v) < 0x80 ? 0 : uint32_t(_v) < 0x800 ? 1 : 2); }")],
 demo=HEAD + r"""
int main() { string s; s.push_back (wchar_t(0x10FFFF)); s.push_back (wchar_t(0x20AC)); CHECK (s.size() == 7); utf8in_iterator<const char*> i (s.c_str()); CHECK (i.base() == s.c_str()); ++i; CHECK (i.base() == s.c_str() + 4); return 0; }"""),
dict(id="s05c", prop="C05", needs="inserting a wide character of five or more bytes by count",
 breaks="string::insert (pos, n, wchar_t) opens less room than the encoding takes and overwrites the text behind it",
 edits=[("ustring.cc", "n * Utf8Bytes(c)));", "n * min (Utf8Bytes(c), size_t(4))));")],
 demo=HEAD + r"""
int main() { string s ("ab"); s.insert (string::pos_type(1), 1, wchar_t(0x20AC)); CHECK (s.size() == 5 && s[4] == 'b'); string t ("abcdef"); t.insert (string::pos_type(1), 1, wchar_t(0x200001)); CHECK (t.size() == 11 && t[10] == 'f' && t[6] == 'b'); return 0; }"""),
]
