HEAD = r'''
#include <ustl.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <sys/resource.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s16a", prop="C16", needs="a stream with room for the characters of a string but not for its length prefix too",
 breaks="a string that does not fit is partially written instead of being refused as a whole",
 edits=[("ustring.cc", 'verify_remaining ("write", "ustl::string", szsz + sz)', 'verify_remaining ("write", "ustl::string", sz)')],
 demo=HEAD + r"""
int main() { char b[8]; memset (b, 'x', 8); ostream os (b, size_t(5)); os.exceptions (0); string s ("hello"); os << s; CHECK (os.fail()); CHECK (os.pos() == 0); CHECK (b[0] == 'x'); 
 ostream o2 (b, size_t(6)); o2 << s; CHECK (o2.pos() == 6 && b[0] == 5 && b[1] == 'h'); return 0; }"""),
dict(id="s16b", prop="C16", needs="reading a block from a truncated record",
 breaks="a refused read of a memory block has already resized the block",
 edits=[("memblock.cc", '''    if (!is.verify_remaining ("read", "ustl::memblock", n))
	return;
    resize (n);
    is.read (data(), writable_size());''', '''    if (is.remaining() < n)
	is.skip (is.remaining());
    resize (n);
    is.read (data(), writable_size());''')],
 demo=HEAD + r"""
int main() { uint32_t d[3] = { 100, 0, 0 }; istream is (d, sizeof(d)); is.exceptions (0); memblock m ("abc", 3); is >> m; CHECK (is.fail()); CHECK (m.size() == 3); CHECK (!memcmp (m.cdata(), "abc", 3));
 uint32_t e[2] = { 4, 7 }; istream i2 (e, sizeof(e)); i2 >> m; CHECK (m.size() == 4 && !i2.remaining()); return 0; }"""),
dict(id="s16c", prop="C16", needs="aligning from one byte past the previous boundary over memory that is not zero",
 breaks="the longest padding is not zeroed: old memory contents leak into the stream",
 edits=[("mistream.cc", "    memset (ip, '\\x0', nb);", "    if (nb + 1 < grain)\n	memset (ip, '\\x0', nb);")],
 demo=HEAD + r"""
int main() { alignas(16) char b[16]; for (unsigned g = 2; g <= 8; g *= 2) for (unsigned k = 1; k < g; ++k) { memset (b, 'x', 16); ostream os (b, size_t(16)); os.skip (k); os.align (g); CHECK (os.pos() == g); for (unsigned j = k; j < g; ++j) CHECK (!b[j]); } return 0; }"""),
dict(id="s16d", prop="C16", needs="a corrupted record that claims 2^30 or more elements",
 breaks="the size of a vector record is computed in 32 bits: an absurd element count passes the bounds check and the vector is resized to it",
 edits=[("uctrstrm.h", "    const size_t expectedSize = n * stream_size_of(value_type());", "    const written_size_type expectedSize = n * stream_size_of(value_type());")],
 demo=HEAD + r"""
int main() { rlimit l = { 1u<<30, 1u<<30 }; setrlimit (RLIMIT_AS, &l); uint32_t d[4] = { 0x40000001, 1, 2, 3 }; istream is (d, sizeof(d)); is.exceptions (0); vector<uint32_t> v; v.push_back (5);
 try { is >> v; } catch (...) { printf ("failed: exception\n"); return 1; } CHECK (is.fail()); CHECK (v.size() == 1 && v[0] == 5); uint32_t e[2] = { 1, 9 }; istream i2 (e, sizeof(e)); i2 >> v; CHECK (v.size() == 1 && v[0] == 9); return 0; }"""),
]
