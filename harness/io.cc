#include "k.h"
typedef istream& I;
typedef const istream& CI;
typedef ostream& O;
typedef const ostream& CO;
typedef const void* CV;
typedef void* V;
typedef const char* CP;
// positions
H(void) i_ctor (V m) { new (m) istream; }
H(void) i_ctor_pn (V m, CV p, size_t n) { new (m) istream (p, n); }
H(void) i_ctor_cl (V m, const cmemlink& l) { new (m) istream (l); }
H(void) i_ctor_os (V m, CO o) { new (m) istream (o); }
H(void) i_seek (I m, size_t n) { m.seek (n); }
H(void) i_iseek (I m, CP p) { m.iseek (p); }
H(void) i_skip (I m, size_t n) { m.skip (n); }
H(void) i_ungetc (I m) { m.ungetc(); }
H(void) i_seekg_beg (I m, off_t p) { m.seekg (p); }
H(void) i_seekg_cur (I m, off_t p) { m.seekg (p, ios::cur); }
H(void) i_seekg_end (I m, off_t p) { m.seekg (p, ios::end); }
H(void) i_align (I m, size_t g) { m.align (g); }
H(size_t) i_align_size (CI m, size_t g) { return m.align_size (g); }
H(bool) i_aligned (CI m, size_t g) { return m.aligned (g); }
H(size_t) i_pos (CI m) { return m.pos(); }
H(long) i_tellg (CI m) { return m.tellg(); }
H(size_t) i_remaining (CI m) { return m.remaining(); }
H(size_t) i_stream_size (CI m) { return m.stream_size(); }
H(CP) i_ipos (CI m) { return m.ipos(); }
H(CP) i_end (CI m) { return m.end(); }
H(bool) i_verify (I m, size_t n) { return m.verify_remaining ("read", "x", n); }
H(size_t) i_underflow (I m, size_t n) { return m.istream::underflow (n); }
H(void) i_link (I m, CV p, size_t n) { m.link (p, n); }
H(void) i_link_ff (I m, CV p, CV e) { m.link (p, e); }
H(void) i_link_cl (I m, const cmemlink& l) { m.link (l); }
H(void) i_relink (I m, CV p, size_t n) { m.relink (p, n); }
H(void) i_relink_cl (I m, const cmemlink& l) { m.relink (l); }
H(void) i_unlink (I m) { m.istream::unlink(); }
H(void) i_swap (I m, I o) { m.swap (o); }
// reads
H(void) i_read (I m, V p, size_t n) { m.read (p, n); }
H(void) i_read_ml (I m, memlink& l) { m.read (l); }
H(size_t) i_readsome (I m, V p, size_t n) { return m.readsome (p, n); }
H(void) i_read_strz (I m, string& s) { m.read_strz (s); }
H(void) i_write (CI m, O o) { m.write (o); }
H(void) i_read_is (I m, I o) { m.read (o); }
#define IR(T,n) H(void) i_iread_##n (I m, T& v) { m.iread (v); } H(void) i_get_##n (I m, T& v) { m >> v; }
IR(uint8_t,u8) IR(uint16_t,u16) IR(uint32_t,u32) IR(uint64_t,u64) IR(int32_t,s32) IR(char,c)
H(void) i_get_bool (I m, bool& v) { m >> v; }
// ostream
H(void) o_ctor (V m) { new (m) ostream; }
H(void) o_ctor_pn (V m, V p, size_t n) { new (m) ostream (p, n); }
H(void) o_ctor_ml (V m, const memlink& l) { new (m) ostream (l); }
H(void) o_seek (O m, size_t n) { m.seek (n); }
H(void) o_iseek (O m, CP p) { m.iseek (p); }
H(void) o_skip (O m, size_t n) { m.skip (n); }
H(void) o_seekp_beg (O m, off_t p) { m.seekp (p); }
H(void) o_seekp_cur (O m, off_t p) { m.seekp (p, ios::cur); }
H(void) o_seekp_end (O m, off_t p) { m.seekp (p, ios::end); }
H(void) o_align (O m, size_t g) { m.align (g); }
H(size_t) o_align_size (CO m, size_t g) { return m.align_size (g); }
H(bool) o_aligned (CO m, size_t g) { return m.aligned (g); }
H(size_t) o_pos (CO m) { return m.pos(); }
H(long) o_tellp (CO m) { return m.tellp(); }
H(size_t) o_remaining (CO m) { return m.remaining(); }
H(size_t) o_stream_size (CO m) { return m.stream_size(); }
H(CP) o_ipos (CO m) { return m.ipos(); }
H(char*) o_wipos (O m) { return m.ipos(); }
H(CP) o_end (CO m) { return m.end(); }
H(char*) o_wend (O m) { return m.end(); }
H(bool) o_verify (O m, size_t n) { return m.verify_remaining ("write", "x", n); }
H(size_t) o_overflow (O m, size_t n) { return m.ostream::overflow (n); }
H(void) o_link (O m, V p, size_t n) { m.link (p, n); }
H(void) o_link_ff (O m, V p, V e) { m.link (p, e); }
H(void) o_link_ml (O m, memlink& l) { m.link (l); }
H(void) o_relink (O m, V p, size_t n) { m.relink (p, n); }
H(void) o_relink_ml (O m, memlink& l) { m.relink (l); }
H(void) o_unlink (O m) { m.ostream::unlink(); }
H(void) o_swap (O m, O o) { m.swap (o); }
H(void) o_write (O m, CV p, size_t n) { m.write (p, n); }
H(void) o_write_cl (O m, const cmemlink& l) { m.write (l); }
H(void) o_write_os (CO m, O o) { m.write (o); }
H(void) o_write_strz (O m, CP s) { m.write_strz (s); }
H(void) o_read (O m, I i) { m.read (i); }
H(void) o_insert (O m, char* p, size_t n) { m.insert (p, n); }
H(void) o_erase (O m, char* p, size_t n) { m.erase (p, n); }
#define OW(T,n) H(void) o_iwrite_##n (O m, T v) { m.iwrite (v); } H(void) o_put_##n (O m, T v) { m << v; }
OW(uint8_t,u8) OW(uint16_t,u16) OW(uint32_t,u32) OW(uint64_t,u64) OW(int32_t,s32) OW(char,c)
H(void) o_put_bool (O m, bool v) { m << v; }
// blocks and containers
H(void) cl_write (const cmemlink& l, O o) { o << l; }
H(size_t) cl_stream_size (const cmemlink& l) { return stream_size_of (l); }
H(void) ml_read (memlink& l, I i) { i >> l; }
H(void) mb_read (memblock& l, I i) { i >> l; }
H(void) s_write (const string& s, O o) { o << s; }
H(void) s_read (string& s, I i) { i >> s; }
H(size_t) s_stream_size (const string& s) { return stream_size_of (s); }
typedef vector<uint8_t> VB;
typedef vector<uint32_t> VW;
H(void) vb_write (const VB& v, O o) { o << v; }
H(void) vb_read (VB& v, I i) { i >> v; }
H(size_t) vb_stream_size (const VB& v) { return stream_size_of (v); }
H(void) vw_write (const VW& v, O o) { o << v; }
H(void) vw_read (VW& v, I i) { i >> v; }
H(size_t) vw_stream_size (const VW& v) { return stream_size_of (v); }
// iterators
typedef istream_iterator<uint8_t> I8;
typedef istream_iterator<uint32_t> I32;
#define II(T,n,E) \
H(void) n##_ctor (V m, I i) { new (m) T (i); } \
H(E) n##_deref (T& m) { return *m; } \
H(void) n##_inc (T& m) { ++m; } \
H(void) n##_post (V r, T& m) { new (r) T (m++); } \
H(void) n##_dec (T& m) { --m; } \
H(void) n##_add (T& m, size_t n) { m += n; } \
H(void) n##_sub (T& m, size_t n) { m -= n; } \
H(void) n##_minus (V r, const T& m, size_t n) { new (r) T (m - n); } \
H(bool) n##_eq (const T& m, const T& o) { return m == o; } \
H(bool) n##_lt (const T& m, const T& o) { return m < o; }
II(I8,ii8,uint8_t) II(I32,ii32,uint32_t)
typedef ostream_iterator<uint8_t> O8;
typedef ostream_iterator<uint32_t> O32;
H(void) oi8_put (O m, uint8_t v) { O8 i (m); *i++ = v; }
H(void) oi32_put (O m, uint32_t v) { O32 i (m); *i = v; ++i; }
H(void) oi8_add (O m, size_t n) { O8 i (m); i += n; }
// what was written is read back
H(void) rt_mix (V p, size_t n, uint8_t a, uint16_t b, uint32_t d, uint64_t e, uint8_t* ra, uint16_t* rb, uint32_t* rd, uint64_t* re)
{
    ostream os (p, n);
    os << a; os.align (2); os << b << d; os.align (8); os << e;
    istream is (os);
    is >> *ra; is.align (2); is >> *rb >> *rd; is.align (8); is >> *re;
}
H(void) rt_pair (V p, size_t n, uint8_t a, uint32_t b, uint8_t* ra, uint32_t* rb)
{
    pair<uint8_t,uint32_t> x (a, b), y;
    ostream os (p, n); os << x;
    istream is (os); is >> y;
    *ra = y.first; *rb = y.second;
}
H(void) rt_string (V p, size_t n, const string& s, string& r) { ostream os (p, n); os << s; istream is (os); is >> r; }
H(void) rt_block (V p, size_t n, const memblock& s, memblock& r) { ostream os (p, n); os << s; istream is (os); is >> r; }
H(void) rt_vb (V p, size_t n, const VB& s, VB& r) { ostream os (p, n); os << s; istream is (os); is >> r; }
H(void) rt_strz (V p, size_t n, CP s, string& r) { ostream os (p, n); os.write_strz (s); istream is (os); is.read_strz (r); }
