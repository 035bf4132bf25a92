#include "k.h"
typedef const char* CP;
typedef char* P;
typedef string& S;
typedef const string& CS;
H(size_t) u8_bytes (wchar_t v) { return Utf8Bytes (v); }
H(size_t) u8_bytes_range (const wchar_t* f, const wchar_t* l) { return Utf8Bytes (f, l); }
H(size_t) u8_seq (wchar_t c) { return Utf8SequenceBytes (c); }
H(size_t) u8_seq_ch (char c) { return Utf8SequenceBytes (uint8_t(c)); }
// encoding
H(P) u8_put (P p, wchar_t v) { utf8out_iterator<P> o (p); *o = v; ++o; return o.base(); }
H(P) u8_put_post (P p, wchar_t v) { utf8out_iterator<P> o = utf8out (p); *o++ = v; return o.base(); }
H(uint8_t*) u8_put_u (uint8_t* p, wchar_t v) { utf8out_iterator<uint8_t*> o (p); *o = v; ++o; return o.base(); }
H(P) u8_put2 (P p, wchar_t v, wchar_t w) { utf8out_iterator<P> o (p); *o++ = v; *o++ = w; return o.base(); }
H(P) u8_fill (P p, size_t n, wchar_t v) { return fill_n (utf8out (p), n, v).base(); }
// decoding
H(wchar_t) u8_get (CP p) { utf8in_iterator<CP> i (p); return *i; }
H(wchar_t) u8_get_f (CP p) { return *utf8in (p); }
H(wchar_t) u8_get_u (const uint8_t* p) { return *utf8in (p); }
H(wchar_t) u8_get_copy (CP p) { utf8in_iterator<CP> i (p), j (i); return *j; }
H(CP) u8_base (CP p) { return utf8in (p).base(); }
H(wchar_t) u8_round (P p, wchar_t v) { utf8out_iterator<P> o (p); *o = v; return *utf8in (p); }
// iteration
H(wchar_t) u8_next (CP p) { utf8in_iterator<CP> i (p); ++i; return *i; }
H(CP) u8_next_base (CP p) { utf8in_iterator<CP> i (p); ++i; return i.base(); }
H(wchar_t) u8_nextp (CP p, CP* n) { utf8in_iterator<CP> i (p); wchar_t v = *i++; *n = i.base(); return v; }
H(wchar_t) u8_nextasg (CP p) { utf8in_iterator<CP> i (p), j (p); ++i; j = i; return *j; }
H(wchar_t) u8_nth (CP p, size_t k, CP* b) { utf8in_iterator<CP> i (p); i += k; *b = i.base(); return *i; }
H(wchar_t) u8_nth_plus (CP p, size_t k, CP* b) { utf8in_iterator<CP> i (p); utf8in_iterator<CP> j = i + k; *b = j.base(); return *j; }
H(size_t) u8_dist (CP p, CP e) { return utf8in (e) - utf8in (p); }
H(size_t) u8_count (CP p, CP e) { size_t n = 0; for (utf8in_iterator<CP> i (p), l (e); i < l; ++i) ++n; return n; }
H(size_t) u8_count_ne (CP p, CP e) { size_t n = 0; for (utf8in_iterator<CP> i (p), l (e); !(i == l); ++i) ++n; return n; }
H(wchar_t*) u8_decode (CP p, CP e, wchar_t* o) { utf8in_iterator<CP> i (p), l (e); for (; i < l; ++i) *o++ = *i; return o; }
H(P) u8_encode (const wchar_t* f, const wchar_t* l, P o) { utf8out_iterator<P> u (o); for (; f < l; ++f) *u++ = *f; return u.base(); }
// strings
H(size_t) u8_length (CS s) { return s.length(); }
H(size_t) u8_range (CS s) { return s.utf8_end() - s.utf8_begin(); }
H(CP) u8_wiat (CS s, size_t i) { return s.wiat (i); }
H(void) u8_ins_c (S s, size_t p, size_t n, wchar_t c) { s.insert (p, n, c); }
H(void) u8_ins_r (S s, size_t p, const wchar_t* f, const wchar_t* l) { s.insert (p, f, l); }
H(void) u8_ins_rn (S s, size_t p, const wchar_t* f, const wchar_t* l, size_t n) { s.insert (p, f, l, n); }
H(void) u8_append_c (S s, size_t n, wchar_t c) { s.append (n, c); }
H(void) u8_append_r (S s, const wchar_t* f, const wchar_t* l) { s.append (f, l); }
H(void) u8_append_cp (S s, const wchar_t* p) { s.append (p); }
H(void) u8_push (S s, wchar_t c) { s.push_back (c); }
H(void) u8_pluseq (S s, wchar_t c) { s += c; }
H(void) u8_pluseq_cp (S s, const wchar_t* p) { s += p; }
H(size_t) u8_stream_size (CS s) { return s.stream_size(); }
