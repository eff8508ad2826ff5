// Shared parts of the lattice harnesses: an arbitrary node of an arbitrary lattice.
#ifndef LAT_H_
#define LAT_H_
#include "verif.h"
#include "hila.h"
#include <new>
namespace lat {
static int my_rank = 0, n_ranks = 1;
}
namespace hila {
int myrank() { return lat::my_rank; }
int number_of_nodes() { return lat::n_ranks; }
#ifdef REPLAY
std::ostream out(nullptr), out0(nullptr);
void print_dashed_line(const std::string &) {}
void finishrun() { throw v_rt::Reject(); }
#endif
}
#ifdef REPLAY
void *memalloc(std::size_t n) { return malloc(n); }
void *memalloc(std::size_t n, const char *, const unsigned) { return malloc(n); }
#endif
namespace lat {
// contract of node_struct::setup / nodeinfo: box [min,min+size), volume < 2^31, even/odd site counts,
// size_factor the running products of the sizes
struct Box { int64_t vol, sf[NDIM + 1]; };
inline Box any_box(lattice_struct::node_struct &n) {
    Box b;
    b.sf[0] = 1;
#ifdef REPLAY
    const int lim = v::range("lim", 1, 7), big = 1000;
#else
    const int lim = 1 << 24, big = 1 << 24;
#endif
    for (int d = 0; d < NDIM; d++) {
        n.min[d] = v::range("min", 0, big);
        n.size[d] = v::range("size", 1, lim);
        b.sf[d + 1] = b.sf[d] * n.size[d];
        v::require(b.sf[d + 1] < (1ll << 31));
        n.size_factor[d] = b.sf[d];
    }
    b.vol = b.sf[NDIM];
    n.volume = b.vol;
    int p = 0;
    for (int d = 0; d < NDIM; d++) p += n.min[d];
    if (b.vol % 2 == 0) n.evensites = n.oddsites = b.vol / 2;
    else if (p % 2 == 0) { n.evensites = b.vol / 2 + 1; n.oddsites = b.vol / 2; }
    else { n.evensites = b.vol / 2; n.oddsites = b.vol / 2 + 1; }
    return b;
}
// arbitrary site of the box; x = coordinates relative to min
inline CoordinateVector any_site(const lattice_struct::node_struct &n, const char *nm = "site") {
    CoordinateVector l;
    for (int d = 0; d < NDIM; d++) {
#ifdef REPLAY
        int x = v::range(nm, 0, n.size[d] - 1);
#else
        int x = v::range(nm, 0, 1 << 24);
        v::require(x < n.size[d]);
#endif
        l[d] = n.min[d] + x;
    }
    return l;
}
inline int par(const CoordinateVector &l) {
    int p = 0;
    for (int d = 0; d < NDIM; d++) p += l[d] % 2;
    return p % 2;
}
// Horner form of the logical index: q[d] = x_d + size_d * q[d+1], q[NDIM] = 0
struct Horner { int64_t q[NDIM + 1]; };
inline Horner horner(const lattice_struct::node_struct &n, const Box &b, const CoordinateVector &l) {
    Horner h;
    h.q[NDIM] = 0;
    for (int d = NDIM - 1; d >= 0; d--) h.q[d] = (l[d] - n.min[d]) + (int64_t)n.size[d] * h.q[d + 1];
    return h;
}
// Lemmas: proved once for arbitrary arguments (PROOF lemma_*), then used as facts.
template <typename L, typename... A> inline void use(A... a) {
    v::ensure(L::pre(a...), "lemma premise");
    v::define(L::post(a...));
}
template <typename L, typename... A> inline void prove(A... a) {
    v::require(L::pre(a...));
    v::ensure(L::post(a...), "lemma");
}
// mixed radix digits are unique
struct Digits {
    static bool pre(int64_t x, int64_t y, int64_t s, int64_t p, int64_t q) {
        return 0 <= x && x < s && 0 <= y && y < s && x + s * p == y + s * q;
    }
    static bool post(int64_t x, int64_t y, int64_t, int64_t p, int64_t q) { return x == y && p == q; }
};
// successor of a mixed radix number: carry or no carry
struct Succ {
    static bool pre(int64_t x, int64_t y, int64_t s, int64_t p, int64_t q) {
        return 0 <= x && x < s && 0 <= y && y < s && x + s * p + 1 == y + s * q;
    }
    static bool post(int64_t x, int64_t y, int64_t s, int64_t p, int64_t q) {
        return (x + 1 == y && p == q) || (x == s - 1 && y == 0 && q == p + 1);
    }
};
// adding an even number keeps the parity
struct Even {
    static bool pre(int64_t u, int64_t x, int64_t t) { return u >= 0 && x >= 0 && u == x + 2 * t; }
    static bool post(int64_t u, int64_t x, int64_t) { return u % 2 == x % 2; }
};
// factors of an odd product are odd
struct OddProd {
    static bool pre(int64_t u, int64_t a, int64_t b) { return a >= 1 && b >= 1 && u == a * b && u % 2 == 1; }
    static bool post(int64_t, int64_t a, int64_t b) { return a % 2 == 1 && b % 2 == 1; }
};
// parity of x + s*p
struct Odd {
    static bool pre(int64_t x, int64_t s, int64_t p) { return x >= 0 && s >= 1 && p >= 0; }
    static bool post(int64_t x, int64_t s, int64_t p) {
        return (x + s * p) % 2 == (s % 2 == 0 ? x % 2 : (x + p) % 2);
    }
};
// quotient and remainder of x + s*p
struct DivMod {
    static bool pre(int u, int64_t x, int s, int64_t p) { return (0 <= x) & (x < s) & (p >= 0) & (u == x + s * p); }
    static bool post(int u, int64_t x, int s, int64_t p) { return (u % s == x) & (u / s == p); }
};
// quotient bounds
struct Floor {
    static bool pre(int u, int s) { return (u >= 0) & (s >= 1); }
    static bool post(int u, int s) { int64_t q = u / s; return (q >= 0) & (q * s <= u) & (u < (q + 1) * s); }
};
// products of equals
struct MulEq {
    static bool pre(int64_t a, int64_t b, int64_t c, int64_t d) { return (a == c) & (b == d); }
    static bool post(int64_t a, int64_t b, int64_t c, int64_t d) { return a * b == c * d; }
};
inline int64_t arb(const char *n) { return v::range(n, -(1ll << 31), 1ll << 31); }
} // namespace lat
#endif
