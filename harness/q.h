// Element with a lifetime: construction and destruction are recorded, using or destroying a dead element is an error.
#pragma once
#include "k.h"
extern "C" { void q_born (void) noexcept; void q_gone (void) noexcept; void q_bad (void) noexcept; }
enum { Q_LIVE = 0x5a5a5a5a, Q_DEAD = 0x11111111 };
struct Q {
    int v, live;
    Q (void) noexcept : v (0), live (Q_LIVE) { q_born(); }
    Q (int x) noexcept : v (x), live (Q_LIVE) { q_born(); }
    Q (const Q& q) noexcept : v (q.use()), live (Q_LIVE) { q_born(); }
    Q (Q&& q) noexcept : v (q.use()), live (Q_LIVE) { q_born(); }
    ~Q (void) noexcept { if (live != Q_LIVE) q_bad(); live = Q_DEAD; q_gone(); }
    Q& operator= (const Q& q) noexcept { if (live != Q_LIVE) q_bad(); v = q.use(); return *this; }
    int use (void) const { if (live != Q_LIVE) q_bad(); return v; }
    bool operator== (const Q& q) const { return k_eq (use(), q.use()); }
    bool operator< (const Q& q) const { return k_lt (use(), q.use()); }
};
