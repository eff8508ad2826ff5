// L01: site layout of a node
#include "lat.h"
#include "plumbing/lattice.cpp"
#ifdef REPLAY
// the remaining library symbols are never called by these harnesses
#endif
using namespace lat;
static lattice_struct L;

// logical index of a site of the box is in [0,volume)
PROOF(logical_range, "linfeas") {
    Box b = any_box(L.mynode);
    CoordinateVector l = any_site(L.mynode);
    int64_t s = 0;
    for (int d = 0; d < NDIM; d++) {
        int64_t x = l[d] - L.mynode.min[d];
        v::ensure(x * b.sf[d] <= (L.mynode.size[d] - 1) * b.sf[d], "term bound");
        v::ensure((L.mynode.size[d] - 1) * b.sf[d] == b.sf[d + 1] - b.sf[d], "telescope");
        s += x * b.sf[d];
        v::ensure(s < b.sf[d + 1], "partial sum");
    }
    unsigned r = L.mynode.get_logical_index(l);
    v::ensure(r == s, "logical index is x + y*nx + ...");
    v::ensure(r < b.vol, "logical index below the volume");
}

PROOF(lemma_digits, "") { prove<Digits>(arb("x"), arb("y"), arb("s"), arb("p"), arb("q")); }
PROOF(lemma_succ, "") { prove<Succ>(arb("x"), arb("y"), arb("s"), arb("p"), arb("q")); }
PROOF(lemma_even, "") { prove<Even>(arb("u"), arb("x"), arb("t")); }
PROOF(lemma_odd, "merge=false") {
    int64_t x = arb("x"), s = arb("s"), p = arb("p");
    v::require(Odd::pre(x, s, p));
    v::ensure(s * p >= 0, "product not negative");
    int64_t a = s / 2, t = a * p;
    if (s % 2 == 0) {
        v::ensure(s == 2 * a, "even");
        v::ensure(s * p == 2 * t, "even product");
        use<Even>(x + s * p, x, t);
    } else {
        v::ensure(s == 2 * a + 1, "odd");
        v::ensure(s * p == 2 * t + p, "odd product");
        use<Even>(x + s * p, x + p, t);
    }
    v::ensure(Odd::post(x, s, p), "lemma");
}

// two sites with the same logical index are the same site
static int64_t logical(const CoordinateVector &l, const Box &b, Horner &h) {
    int64_t s = 0;
    for (int d = 0; d < NDIM; d++) s += (l[d] - L.mynode.min[d]) * b.sf[d];
    h = horner(L.mynode, b, l);
    v::ensure(s == h.q[0], "Horner form of the logical index");
    return s;
}
PROOF(logical_injective, "linfeas") {
    Box b = any_box(L.mynode);
    CoordinateVector l = any_site(L.mynode), m = any_site(L.mynode);
    Horner hl, hm;
    int64_t i = logical(l, b, hl), j = logical(m, b, hm);
    v::require(i == j);
    for (int d = 0; d < NDIM; d++) {
        use<Digits>(l[d] - L.mynode.min[d], m[d] - L.mynode.min[d], L.mynode.size[d], hl.q[d + 1], hm.q[d + 1]);
        v::ensure(l[d] == m[d], "same logical index, same coordinate");
    }
}

PROOF(lemma_oddprod, "merge=false") {
    int64_t u = arb("u"), a = arb("a"), b = arb("b");
    v::require(OddProd::pre(u, a, b));
    int64_t x = a / 2, y = b / 2;
    if (a % 2 == 0) {
        v::ensure(u == 2 * (x * b), "even factor");
        use<Even>(u, (int64_t)0, x * b);
    } else if (b % 2 == 0) {
        v::ensure(u == 2 * (a * y), "even factor");
        use<Even>(u, (int64_t)0, a * y);
    }
    v::ensure(OddProd::post(u, a, b), "lemma");
}
static Box B;
static bool inbox(const lattice_struct::node_struct &n, const CoordinateVector &l) {
    bool r = true;
    for (int d = 0; d < NDIM; d++) r = r & (l[d] >= n.min[d]) & (l[d] - n.min[d] < n.size[d]);
    return r;
}
// contract of get_logical_index, proved in logical_range
STUB(logical, "node_struct::get_logical_index")
#ifndef REPLAY
extern "C" unsigned stub_logical(const lattice_struct::node_struct *n, const CoordinateVector &l) {
    v::ensure(inbox(*n, l), "site is on this node");
    int64_t s = 0;
    for (int d = 0; d < NDIM; d++) s += (l[d] - n->min[d]) * B.sf[d];
    unsigned r = v::any<unsigned>("logical");
    v::define(r == s && r < B.vol);
    return r;
}
#endif
// parity of the logical index when the volume is odd
static void odd_volume(const Horner &h, const CoordinateVector &l) {
    auto &n = L.mynode;
    for (int d = NDIM - 1; d >= 0; d--) use<OddProd>(B.sf[d + 1], B.sf[d], (int64_t)n.size[d]);
    int64_t t = 0;
    for (int d = NDIM - 1; d >= 0; d--) {
        v::ensure(h.q[d + 1] >= 0, "not negative");
        use<Odd>((int64_t)(l[d] - n.min[d]), (int64_t)n.size[d], h.q[d + 1]);
        t += l[d] - n.min[d];
        v::ensure(h.q[d] % 2 == t % 2, "parity of the logical index");
    }
}
PROOF(site_index_range, "stubs=logical merge=false linfeas") {
    B = any_box(L.mynode);
    CoordinateVector l = any_site(L.mynode);
    Horner h;
    int64_t i = logical(l, B, h);
    if (B.vol % 2 == 1) odd_volume(h, l);
    unsigned s = L.site_index(l);
    v::ensure(s < B.vol, "site index below the volume");
    v::ensure((s < L.mynode.evensites) == (par(l) == 0), "even sites first");
    v::cover("end");
}
// two sites with the same site index are the same site; together with the ranges the site index is a
// bijection from the node's box onto [0,volume) that puts the even sites on [0,evensites)
static void successor(const CoordinateVector &l, const CoordinateVector &m, const Horner &a, const Horner &b) {
    auto &n = L.mynode;
    for (int d = 0; d < NDIM; d++) {
        int64_t x = l[d] - n.min[d], y = m[d] - n.min[d], s = n.size[d];
        use<Succ>(x, y, s, a.q[d + 1], b.q[d + 1]);
        if (x + 1 == y) {
            for (int e = d + 1; e < NDIM; e++) {
                use<Digits>((int64_t)(l[e] - n.min[e]), (int64_t)(m[e] - n.min[e]), (int64_t)n.size[e], a.q[e + 1], b.q[e + 1]);
                v::ensure(l[e] == m[e], "higher coordinates agree");
            }
            v::ensure(par(l) != par(m), "successor of an even logical index has the other parity");
            return;
        }
        v::ensure(a.q[d] + 1 == s * (a.q[d + 1] + 1), "carry");
        v::ensure(a.q[d + 1] >= 0, "not negative");
        use<OddProd>(a.q[d] + 1, s, a.q[d + 1] + 1);
        v::ensure(l[d] % 2 == m[d] % 2 && a.q[d + 1] % 2 == 0, "carry keeps the parity");
    }
    v::ensure(false, "the last site has no successor");
}
PROOF(site_index_injective, "stubs=logical merge=false linfeas") {
    B = any_box(L.mynode);
    CoordinateVector l = any_site(L.mynode), m = any_site(L.mynode);
    Horner a, b;
    int64_t i = logical(l, B, a), j = logical(m, B, b);
    unsigned s = L.site_index(l), t = L.site_index(m);
    v::require(s == t);
#ifdef REPLAY
    v::ensure(l == m, "same site index, same site");
#else
    // contract of site_index, proved in site_index_range
    v::define(s < B.vol && (s < L.mynode.evensites) == (par(l) == 0) && (t < L.mynode.evensites) == (par(m) == 0));
    v::ensure(par(l) == par(m), "same parity");
    v::ensure(i / 2 == j / 2, "same half of the logical index");
    for (int d = 0; d < NDIM; d++) v::ensure(a.q[d] >= 0 && b.q[d] >= 0, "not negative");
    if (i == j) {
        for (int d = 0; d < NDIM; d++)
            use<Digits>((int64_t)(l[d] - L.mynode.min[d]), (int64_t)(m[d] - L.mynode.min[d]), (int64_t)L.mynode.size[d], a.q[d + 1], b.q[d + 1]);
    } else if (i < j) {
        v::ensure(i % 2 == 0 && j == i + 1, "neighbouring logical indices");
        successor(l, m, a, b);
    } else {
        v::ensure(j % 2 == 0 && i == j + 1, "neighbouring logical indices");
        successor(m, l, b, a);
    }
    for (int d = 0; d < NDIM; d++) v::ensure(l[d] == m[d], "same site index, same site");
#endif
}
// advancing through the box visits the logical indices in order
static int64_t logi(const CoordinateVector &l) {
    int64_t s = 0;
    for (int d = 0; d < NDIM; d++) s += (l[d] - L.mynode.min[d]) * B.sf[d];
    return s;
}
PROOF(advance, "linfeas merge=false") {
    B = any_box(L.mynode);
    CoordinateVector l = any_site(L.mynode);
    int64_t s = logi(l);
    L.mynode.advance_local_coordinate(l);
    if (s + 1 < B.vol) {
        v::ensure(inbox(L.mynode, l), "stays in the box");
        v::ensure(logi(l) == s + 1, "next logical index");
        v::cover("next");
    } else {
        v::ensure(l == L.mynode.min, "wraps to the first site");
    }
}
// node_struct::setup fills coordinates[] as the inverse of site_index
#ifndef REPLAY
static CoordinateVector W; // an arbitrary site
static unsigned siW;
static int64_t iW;
STUB(advance, "node_struct::advance_local_coordinate")
extern "C" void stub_advance(const lattice_struct::node_struct *n, CoordinateVector &l) {
    v::ensure(inbox(*n, l), "site is on this node");
    int64_t s = logi(l);
    CoordinateVector r;
    v::fill<int>(r, "advanced");
    v::define((s + 1 < B.vol && inbox(*n, r) && logi(r) == s + 1) || (s + 1 >= B.vol && r == n->min));
    l = r;
}
STUB(site_index, "^lattice_struct::site_index\\(")
extern "C" unsigned stub_site_index(const lattice_struct *lp, const CoordinateVector &l) {
    v::ensure(inbox(lp->mynode, l), "site is on this node");
    unsigned r = v::any<unsigned>("site_index");
    v::define(r < B.vol && (r < lp->mynode.evensites) == (par(l) == 0) && (r == siW) == (l == W));
    return r;
}
STUB(resize, "^std::vector<CoordinateVector_t<int>.*>::resize\\(unsigned long\\)")
extern "C" void stub_resize(std::vector<CoordinateVector> *p, size_t n) {
    CoordinateVector *a = v::array_of<CoordinateVector, int>("coordinates", n);
    p->_M_impl._M_start = a;
    p->_M_impl._M_finish = p->_M_impl._M_end_of_storage = a + n;
}
void verif_inv_node_coordinates(unsigned i, const CoordinateVector &l) {
    v::inv(i < B.vol, "counter");
    v::inv(inbox(L.mynode, l), "current site is in the box");
    v::inv(logi(l) == i, "current site has logical index i");
    v::inv(iW >= i || L.mynode.coordinates[siW] == W, "sites already visited are stored");
    v::define(logi(l) != iW || l == W); // proved in logical_injective
}
#endif
PROOF(node_setup, "linfeas stubs=advance+site_index+resize") {
    node_info ni;
    lattice_struct::node_struct t;
    B = any_box(t);
    ni.min = t.min; ni.size = t.size; ni.evensites = t.evensites; ni.oddsites = t.oddsites;
#ifndef REPLAY
    W = any_site(t);
    iW = 0;
    for (int d = 0; d < NDIM; d++) iW += (W[d] - t.min[d]) * B.sf[d];
    v::define(0 <= iW && iW < B.vol); // proved in logical_range
    siW = v::any<unsigned>("siW");
    v::define(siW < B.vol && (siW < ni.evensites) == (par(W) == 0));
    L.mynode.min = t.min; L.mynode.size = t.size; // so that the contracts can speak about the box
#else
    v::require(B.vol <= 4096);
#endif
    L.mynode.setup(ni, L);
    v::ensure(L.mynode.min == t.min && L.mynode.size == t.size, "box");
    v::ensure(L.mynode.evensites == ni.evensites && L.mynode.oddsites == ni.oddsites && L.mynode.volume == B.vol, "site counts");
    v::ensure(L.mynode.parent == &L, "parent");
    for (int d = 0; d < NDIM; d++) v::ensure(L.mynode.size_factor[d] == B.sf[d], "size factors");
#ifndef REPLAY
    v::ensure(L.mynode.coordinates[siW] == W, "coordinates inverts site_index");
    v::cover("end");
#else
    v::ensure(L.mynode.coordinates.size() == B.vol, "coordinates for every site");
    for (unsigned i = 0; i < B.vol; i++) {
        auto &c = L.mynode.coordinates[i];
        v::ensure(inbox(L.mynode, c) && L.site_index(c) == i, "coordinates inverts site_index");
    }
#endif
}
