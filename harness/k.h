// Opaque element type: every operation on it is an external function of its value.  The verifier treats these
// functions as uninterpreted (k_lt: a strict weak order); the native replay defines them.
#pragma once
#include <ustl/ustl.h>
extern "C" {
bool k_lt (int a, int b) noexcept __attribute__((const));
bool k_eq (int a, int b) noexcept __attribute__((const));
bool k_pred (int a) noexcept __attribute__((const));
bool k_bp (int a, int b) noexcept __attribute__((const));
int k_fn1 (int a) noexcept __attribute__((const));
int k_fn2 (int a, int b) noexcept __attribute__((const));
int k_gen (void) noexcept;
}
struct K { int v; };
inline bool operator< (const K& a, const K& b) { return k_lt (a.v, b.v); }
inline bool operator== (const K& a, const K& b) { return k_eq (a.v, b.v); }
inline bool operator!= (const K& a, const K& b) { return !k_eq (a.v, b.v); }
inline bool operator> (const K& a, const K& b) { return k_lt (b.v, a.v); }
inline bool operator<= (const K& a, const K& b) { return !k_lt (b.v, a.v); }
inline bool operator>= (const K& a, const K& b) { return !k_lt (a.v, b.v); }
struct Lt { bool operator() (const K& a, const K& b) const { return k_lt (a.v, b.v); } };
struct Ld { int d; bool operator() (const K& a, const K& b) const { return d ? k_lt (b.v, a.v) : k_lt (a.v, b.v); } };
struct Eq { bool operator() (const K& a, const K& b) const { return k_eq (a.v, b.v); } };
struct Pr { bool operator() (const K& a) const { return k_pred (a.v); } };
struct Bp { bool operator() (const K& a, const K& b) const { return k_bp (a.v, b.v); } };
struct F1 { K operator() (const K& a) const { return K{k_fn1 (a.v)}; } };
struct F2 { K operator() (const K& a, const K& b) const { return K{k_fn2 (a.v, b.v)}; } };
struct Ge { K operator() (void) const { return K{k_gen()}; } };
#define H(r) extern "C" r
using namespace ustl;
