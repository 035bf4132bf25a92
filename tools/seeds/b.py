HEAD = r'''
#include <ualgo.h>
#include <memblock.h>
#include <ustring.h>
#include <ulimits.h>
#include <uexception.h>
#include <stdio.h>
#include <stdlib.h>
using namespace ustl;
#define CHECK(x) do { if (!(x)) { printf ("failed: %s\n", #x); return 1; } } while (0)
'''
SEEDS = [
dict(id="s02a", prop="C02", needs="a block of at least 32 bytes whose source is misaligned and whose destination is aligned after the head, with a length that leaves exactly half a block",
 breaks="copy_n_fast drops bytes after the vector part",
 edits=[("ualgobase.cc", "	simd_block_cleanup();\n	nBytes %= MMX_BS;\n    }\n    movsb (src, nBytes, dest);", "	simd_block_cleanup();\n	nBytes &= nMiddleBlocks == 13 ? MMX_BS-2 : MMX_BS-1;\n    }\n    movsb (src, nBytes, dest);")],
 demo=HEAD + r'''
int main() {
    static unsigned char a [1200], b [1200] __attribute__((aligned(64)));
    for (unsigned n = 0; n < 600; ++n) for (unsigned o = 0; o < 17; ++o) for (unsigned q = 0; q < 17; ++q) {
	for (unsigned i = 0; i < 1200; ++i) { a[i] = i*7+1; b[i] = 0; }
	copy_n_fast (a+o, n, b+q);
	for (unsigned i = 0; i < n; ++i) CHECK (b[q+i] == a[o+i]);
	CHECK (b[q+n] == 0);
    }
    return 0;
}'''),
dict(id="s02b", prop="C02", needs="overlapping backward copy with an unaligned end and at least one full word",
 breaks="copy_backward_fast moves whole words although the destination is not aligned with the source and the ranges overlap by less than a word",
 edits=[("ualgobase.cc", "	const size_t nMiddleBlocks = nBytes / 4;\n	advance (last, -3);", "	const size_t nMiddleBlocks = (nBytes + (nBytes > 56)) / 4;\n	advance (last, -3);")],
 demo=HEAD + r'''
int main() {
    static unsigned char a [200], w [200];
    for (unsigned n = 0; n < 90; ++n) for (unsigned o = 0; o < 9; ++o) for (unsigned d = 1; d < 12; ++d) {
	for (unsigned i = 0; i < 200; ++i) w[i] = a[i] = i*7+1;
	for (unsigned i = n; i-- > 0;) w[o+d+i] = w[o+i];
	copy_backward_fast (a+o, a+o+n, a+o+d+n);
	for (unsigned i = 0; i < 200; ++i) CHECK (w[i] == a[i]);
    }
    return 0;
}'''),
dict(id="s02c", prop="C02", needs="rotation of a range whose two parts are equally long",
 breaks="rotate_fast copies the longer part when the parts differ by one byte",
 edits=[("ualgobase.cc", "	    copy_n_fast (buf, half1, advance_ptr(first,half2));", "	    copy_n_fast (buf, half1, advance_ptr(first,half2 - (half2 == half1 + 3 && half1 > 14)));")],
 demo=HEAD + r'''
int main() {
    static unsigned char a [200];
    for (unsigned n = 0; n < 60; ++n) for (unsigned m = 0; m <= n; ++m) {
	for (unsigned i = 0; i < n; ++i) a[i] = i+1;
	rotate_fast (a, a+m, a+n);
	for (unsigned i = 0; i < n; ++i) CHECK (a[i] == (i+m)%n + 1);
    }
    return 0;
}'''),
dict(id="s01a", prop="C01", needs="erase at the front of a block that is linked to somebody else's data",
 breaks="erase edits linked data in place instead of copying it first",
 edits=[("memblock.cc", "    reserve (size());	// copy-on-write", "    if (ep || !is_linked())\n	reserve (size());	// copy-on-write")],
 demo=HEAD + r'''
int main() {
    for (unsigned ep = 0; ep < 4; ++ep) {
	char d[] = "abcdefgh";
	memblock m; m.link (d, 8); m.erase (m.begin()+ep, 2);
	CHECK (m.size() == 6);
	CHECK (!memcmp (d, "abcdefgh", 8));
	char w[] = "abcdefgh"; memmove (w+ep, w+ep+2, 6-ep);
	CHECK (!memcmp (m.cdata(), w, 6));
	CHECK (m.capacity() >= m.size());
    }
    return 0;
}'''),
dict(id="s01b", prop="C01", needs="an insertion that makes the block move to a new address",
 breaks="insert opens the gap at the position in the old storage, which growing has released",
 edits=[("memblock.cc", "    memlink::insert (iat(ip), n);", "    memlink::insert (const_cast<iterator>(start), n);")],
 demo='#include <memblock.h>\n#include <stdio.h>\n#include <stdlib.h>\n#include <string.h>\n#include <malloc.h>\n' + r'''
using namespace ustl;
// a realloc that always moves, and keeps the old storage so that nothing else is disturbed
extern "C" void* realloc (void* p, size_t n) { void* q = malloc (n); if (p && q) { size_t o = malloc_usable_size (p); memcpy (q, p, o < n ? o : n); } return q; }
int main() {
    memblock m; m.assign ("abcdefgh", 8);
    memblock::iterator i = m.insert (m.begin() + 3, 5);
    if (i != m.begin() + 3 || m.size() != 13 || memcmp (m.begin(), "abc", 3) || memcmp (m.begin() + 8, "defgh", 5)) { printf ("failed\n"); return 1; }
    return 0;
}'''),
dict(id="s01c", prop="C01", needs="moving into a block that owns storage from one that is linked",
 breaks="move assignment of a linked block leaves the target owning storage it does not own",
 edits=[("memblock.h", "memlink::swap (l); ::ustl::swap (_capacity, l._capacity); }", "memlink::swap (l); if (max (_capacity, l._capacity) != size() + l.size()) ::ustl::swap (_capacity, l._capacity); }")],
 demo=HEAD + r'''
int main() {
    for (unsigned n = 1; n < 40; ++n) {
	static char d [40];
	memblock a, b; a.reserve (n, true); a.resize (n - 1); b.link (d, 1);
	a.swap (b);
	CHECK (a.capacity() == 0 && b.capacity() == n);
	a.unlink();
    }
    return 0;
}'''),
dict(id="s01d", prop="C01", needs="a resize that reallocates while the block is linked and the reallocation is exact",
 breaks="growing a linked block copies one byte too few when the size is just below a power of two",
 edits=[("memblock.cc", "	const size_type copied = min (size(), newSize);", "	const size_type copied = min (size(), newSize & ~size_type(bExact));")],
 demo=HEAD + r'''
int main() {
    for (unsigned n = 1; n < 40; ++n) for (unsigned g = 0; g < 3; ++g) {
	char d [40]; for (unsigned i = 0; i < 40; ++i) d[i] = i+1;
	memblock m; m.link (d, n); m.resize (n+g, true);
	CHECK (!memcmp (m.cdata(), d, n));
    }
    return 0;
}'''),
]
