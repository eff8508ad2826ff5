// C09: which node owns a site
#include "lat.h"
#include "plumbing/lattice.cpp"
#include "plumbing/map_node_layout.cpp"
using namespace lat;
static lattice_struct L;
#ifndef REPLAY
static int K[NDIM];                 // an arbitrary node coordinate in each direction
// contract of setup_node_divisors: divisors[k] = ceil(k*L/n)
static bool divspec(int64_t D, int64_t k, int64_t size, int64_t n) {
    return (D * n >= k * size) & ((D - 1) * n < k * size) & (D >= 0) & (D <= size);
}
static void any_division(int64_t maxprod = (1ll << 31) - 1) {
    for (int d = 0; d < NDIM; d++) {
        L.l_size[d] = v::range("L", 1, 1 << 24);
        L.nodes.n_divisions[d] = v::range("ndiv", 1, 1 << 24);
        v::require((int64_t)L.l_size[d] * L.nodes.n_divisions[d] <= maxprod);
    }
}
STUB(uresize, "^std::vector<unsigned int.*>::resize\\(unsigned long\\)")
extern "C" void stub_uresize(std::vector<unsigned> *p, size_t n) {
    unsigned *a = v::array<unsigned>("divisors", n);
    p->_M_impl._M_start = a;
    p->_M_impl._M_finish = p->_M_impl._M_end_of_storage = a + n;
}
static void divs(int dir, int64_t i, int64_t n) {
    int64_t nd = L.nodes.n_divisions[dir], S = L.l_size[dir];
    v::inv((i >= 0) & (i <= S), "range of i");
    v::inv((n >= -1) & (n <= nd), "range of n");
    v::inv((n < K[dir]) | divspec(L.nodes.divisors[dir].data()[K[dir]], K[dir], S, nd), "divisors already set are ceil(k L/n)");
}
void verif_inv_node_divisors(int dir, int i, int n) {
    int64_t nd = L.nodes.n_divisions[dir], S = L.l_size[dir];
    divs(dir, i, n);
    v::inv((i > 0) | (n == -1), "start");
    v::inv((i == 0) | ((n * S <= (i - 1) * nd) & ((i - 1) * nd < (n + 1) * S)), "n is the node of site i-1");
}
void verif_inv_node_divisors_fill(int dir, int i, int n) {
    int64_t nd = L.nodes.n_divisions[dir], S = L.l_size[dir];
    divs(dir, i, n);
    v::inv((i == 0) | ((i - 1) * nd < (n + 1) * S), "n not below the node of site i-1");
    v::inv((n + 1) * S <= i * nd, "n below the node of site i");
}
PROOF(divisors, "stubs=uresize linfeas") {
    any_division();
    for (int d = 0; d < NDIM; d++) K[d] = v::range("k", 0, 1 << 24), v::require(K[d] <= L.nodes.n_divisions[d]);
    L.setup_node_divisors();
    for (int d = 0; d < NDIM; d++) {
        v::ensure(divspec(L.nodes.divisors[d].at(K[d]), K[d], L.l_size[d], L.nodes.n_divisions[d]), "node boundary k is ceil(k L/n)");
        v::ensure((K[d] > 0) | (L.nodes.divisors[d].at(K[d]) == 0), "first node starts at 0");
        v::ensure((K[d] < L.nodes.n_divisions[d]) | (L.nodes.divisors[d].at(K[d]) == L.l_size[d]), "last node ends at the lattice size");
    }
    v::cover("end");
}

PROOF(lemma_digits, "") { prove<Digits>(arb("x"), arb("y"), arb("s"), arb("p"), arb("q")); }
PROOF(lemma_muleq, "") { prove<MulEq>(arb("a"), arb("b"), arb("c"), arb("d")); }
PROOF(lemma_divmod, "") {
    int u = v::any<int>("u"), s = v::any<int>("s");
    int64_t x = arb("x"), p = arb("p");
    v::require(DivMod::pre(u, x, s, p));
    v::ensure(s * p >= 0, "product not negative");
    use<Floor>(u, s);
    use<Digits>(x, (int64_t)(u % s), (int64_t)s, p, (int64_t)(u / s));
    v::ensure(DivMod::post(u, x, s, p), "lemma");
}
PROOF(lemma_floor, "") { prove<Floor>((int)v::any<int>("u"), (int)v::any<int>("s")); }
// contract of the rank mapping: a bijection of [0,N) (proved for create_remap below)
STUB(remap, "allnodes::remap\\(int\\) const")
extern "C" int stub_remap(const lattice_struct::allnodes *n, int i) {
    v::ensure((i >= 0) & (i < lat::n_ranks), "node number in range");
    int r = v::uf("remap", i);
    v::define((r >= 0) & (r < lat::n_ranks) & (v::uf("inverse", r) == i));
    return r;
}
STUB(inverse, "allnodes::inverse_remap\\(int\\) const")
extern "C" int stub_inverse(const lattice_struct::allnodes *n, int r) {
    v::ensure((r >= 0) & (r < lat::n_ranks), "rank in range");
    int i = v::uf("inverse", r);
    v::define((i >= 0) & (i < lat::n_ranks) & (v::uf("remap", i) == r));
    return i;
}
static void any_ranks() {
    int64_t p = 1;
    for (int d = 0; d < NDIM; d++) {
        v::ensure(p >= 1, "positive");
        p *= L.nodes.n_divisions[d];
    }
    lat::n_ranks = L.nodes.number = v::range("N", 1, (1ll << 31) - 1);
    v::require(p == lat::n_ranks);
}
static void any_divisors() {
    for (int d = 0; d < NDIM; d++) {
        unsigned *a = v::array<unsigned>("divisors", L.nodes.n_divisions[d] + 1);
        auto &p = L.nodes.divisors[d];
        p._M_impl._M_start = a;
        p._M_impl._M_finish = p._M_impl._M_end_of_storage = a + (L.nodes.n_divisions[d] + 1);
    }
}
// instance of the contract of setup_node_divisors
static unsigned divisor(int d, int64_t k) {
    v::ensure((k >= 0) & (k <= L.nodes.n_divisions[d]), "node coordinate in range");
    unsigned D = L.nodes.divisors[d].data()[k];
    v::define(divspec(D, k, L.l_size[d], L.nodes.n_divisions[d]));
    return D;
}
// digits of a node number
struct Digit { int q[NDIM + 1], k[NDIM]; };
static Digit digits(int i) {
    Digit g;
    int64_t N = lat::n_ranks;
    g.q[0] = i;
    int64_t m = lat::n_ranks;
    for (int d = 0; d < NDIM; d++) {
        v::ensure(L.nodes.n_divisions[d] >= 1, "divided");
        v::ensure(g.q[d] >= 0, "not negative");
        use<Floor>(g.q[d], (int)L.nodes.n_divisions[d]);
        g.k[d] = g.q[d] % L.nodes.n_divisions[d];
        g.q[d + 1] = g.q[d] / L.nodes.n_divisions[d];
        v::ensure((g.k[d] >= 0) & (g.k[d] < L.nodes.n_divisions[d]) & (g.q[d] == g.k[d] + (int64_t)L.nodes.n_divisions[d] * g.q[d + 1]), "digit");
    }
    return g;
}
static CoordinateVector lattice_site() {
    CoordinateVector l;
    for (int d = 0; d < NDIM; d++) {
        l[d] = v::range("site", 0, 1 << 24);
        v::require(l[d] < L.l_size[d]);
    }
    return l;
}
static bool volume_fits = false;
STUB(toolarge, "^report_too_large_node")
extern "C" void stub_toolarge() {
    if (volume_fits) v::ensure(false, "node volume fits");
    __v_stop();
}
// nodeinfo(r) is the box between consecutive divisors of the node coordinates of r, with its site counts
PROOF(nodeinfo, "stubs=remap+inverse+toolarge linfeas noabort merge=false") {
    any_division();
    any_ranks();
    any_divisors();
    int r = v::range("rank", 0, (1ll << 31) - 1);
    v::require(r < lat::n_ranks);
    int i = v::uf("inverse", r);
    v::define((i >= 0) & (i < lat::n_ranks));
    Digit g = digits(i);
    // vol = product of the widths w
    int64_t vol = 1, pw = 1, w[NDIM];
    int p = 0;
    for (int d = 0; d < NDIM; d++) {
        w[d] = v::range("width", 0, 1ll << 31);
        pw *= w[d];
        v::ensure(pw >= 0, "not negative");
    }
    for (int d = 0; d < NDIM; d++) {
        int64_t D = divisor(d, g.k[d]), E = divisor(d, g.k[d] + 1);
        v::ensure(E >= D, "divisors increase");
        const int lo = L.nodes.divisors[d].data()[g.k[d]], wd = L.nodes.divisors[d].data()[g.k[d] + 1] - lo;
        v::ensure((wd == E - D) & (wd >= 0), "width of a node");
        v::require(w[d] == wd);
        vol *= wd;
        p += divisor(d, g.k[d]);
    }
    v::ensure(vol == pw, "volume");
    v::require(vol < (1ll << 31));
    volume_fits = true;
    node_info n = L.nodes.nodeinfo(r);
    for (int d = 0; d < NDIM; d++) v::ensure((n.min[d] == divisor(d, g.k[d])) & (n.min[d] + n.size[d] == divisor(d, g.k[d] + 1)), "box between divisors");
    int64_t nodevol = 1, pv = 1;
    for (int d = 0; d < NDIM; d++) {
        v::ensure(n.size[d] == w[d], "width");
        use<MulEq>(nodevol, (int64_t)n.size[d], pv, w[d]);
        nodevol *= n.size[d];
        pv *= w[d];
    }
    v::ensure((int64_t)n.evensites + n.oddsites == vol, "even and odd sites add up to the volume");
    v::ensure((vol % 2 == 0) ? n.evensites == n.oddsites : (p % 2 == 0 ? n.evensites == n.oddsites + 1 : n.oddsites == n.evensites + 1), "parity of the corner has the extra site");
    v::cover("end");
}
// node_rank is a rank, and a site lies in the box of a rank exactly when node_rank gives that rank
PROOF(rank_range, "stubs=remap+inverse+toolarge linfeas noabort") {
    any_division();
    any_ranks();
    CoordinateVector l = lattice_site();
    int64_t N = 1, q = 0;
    int k[NDIM];
    for (int d = 0; d < NDIM; d++) {
        int64_t u = (int64_t)l[d] * L.nodes.n_divisions[d];
        v::ensure((u >= 0) & (u <= (int64_t)(L.l_size[d] - 1) * L.nodes.n_divisions[d]) & (L.nodes.n_divisions[d] <= (1ll << 31) - 1), "no overflow");
        use<Floor>(l[d] * L.nodes.n_divisions[d], L.l_size[d]);
        k[d] = (l[d] * L.nodes.n_divisions[d]) / L.l_size[d];
        v::ensure((k[d] >= 0) & ((int64_t)k[d] * L.l_size[d] <= u) & (u < (int64_t)(k[d] + 1ll) * L.l_size[d]), "node coordinate");
        v::ensure((L.nodes.n_divisions[d] - (int64_t)k[d]) * L.l_size[d] > 0, "node coordinate below the number of divisions");
        v::ensure(k[d] < L.nodes.n_divisions[d], "node coordinate in range");
    }
    for (int d = NDIM - 1; d >= 0; d--) {
        int64_t P = N;
        N *= L.nodes.n_divisions[d];
        q = q * L.nodes.n_divisions[d] + k[d];
        v::ensure((q >= 0) & (q < N), "node number");
    }
    int r = L.node_rank(l);
    v::ensure(N == lat::n_ranks, "number of nodes");
    v::ensure(v::uf("inverse", r) == q, "logical node number runs fastest along x");
    v::ensure((r >= 0) & (r < lat::n_ranks), "rank");
    v::cover("end");
}

// contracts proved in rank_range and nodeinfo
STUB(node_rank, "^lattice_struct::node_rank\\(")
struct NodeNumber { int64_t q[NDIM + 1]; int k[NDIM]; };
static NodeNumber node_number(const CoordinateVector &l) {
    NodeNumber r;
    r.q[NDIM] = 0;
    for (int d = NDIM - 1; d >= 0; d--) {
        r.k[d] = (l[d] * L.nodes.n_divisions[d]) / L.l_size[d];
        r.q[d] = r.q[d + 1] * L.nodes.n_divisions[d] + r.k[d];
        v::define((r.k[d] >= 0) & (r.k[d] < L.nodes.n_divisions[d]) & (r.q[d] >= 0));
        v::define(((int64_t)r.k[d] * L.l_size[d] <= (int64_t)l[d] * L.nodes.n_divisions[d]) & ((int64_t)l[d] * L.nodes.n_divisions[d] < (r.k[d] + 1ll) * L.l_size[d]));
    }
    return r;
}
extern "C" int stub_node_rank(const lattice_struct *lp, const CoordinateVector &l) {
    NodeNumber q = node_number(l);
    int r = v::any<int>("rank");
    v::define((r >= 0) & (r < lat::n_ranks) & (v::uf("inverse", r) == q.q[0]) & (v::uf("remap", q.q[0]) == r));
    return r;
}
PROOF(owner_box, "stubs=remap+inverse+toolarge+node_rank linfeas noabort") {
    any_division();
    any_ranks();
    any_divisors();
    CoordinateVector l = lattice_site();
    volume_fits = false;
    int r = L.node_rank(l);
    NodeNumber q = node_number(l);
    int i = v::uf("inverse", r);
    Digit g = digits(i);
    for (int d = 0; d < NDIM; d++) use<DivMod>(g.q[d], (int64_t)q.k[d], (int)L.nodes.n_divisions[d], q.q[d + 1]);
    node_info n = L.nodes.nodeinfo(r);
    for (int d = 0; d < NDIM; d++) {
        v::ensure((n.min[d] == divisor(d, q.k[d])) & (n.min[d] + n.size[d] == divisor(d, q.k[d] + 1)), "box of the owner");
        int64_t D = divisor(d, q.k[d]), E = divisor(d, q.k[d] + 1);
        v::ensure((l[d] - (D - 1)) * L.nodes.n_divisions[d] > 0, "not below the box");
        v::ensure((E - l[d]) * L.nodes.n_divisions[d] > 0, "not above the box");
        v::ensure((l[d] >= n.min[d]) & (l[d] < n.min[d] + n.size[d]), "the site lies in the box of its owner");
    }
    v::cover("end");
}
PROOF(owner_unique, "stubs=remap+inverse+toolarge+node_rank linfeas noabort") {
    any_division();
    any_ranks();
    any_divisors();
    CoordinateVector l = lattice_site();
    volume_fits = false;
    int r = v::range("other", 0, (1ll << 31) - 1);
    v::require(r < lat::n_ranks);
    int i = v::uf("inverse", r);
    v::define((i >= 0) & (i < lat::n_ranks) & (v::uf("remap", i) == r));
    Digit g = digits(i);
    node_info n = L.nodes.nodeinfo(r);
    NodeNumber q = node_number(l);
    for (int d = 0; d < NDIM; d++) v::require((l[d] >= n.min[d]) & (l[d] < n.min[d] + n.size[d]));
    int64_t p = 1;
    for (int d = 0; d < NDIM; d++) p *= L.nodes.n_divisions[d];
    for (int d = 0; d < NDIM; d++) {
        int64_t D = divisor(d, g.k[d]), E = divisor(d, g.k[d] + 1);
        v::ensure((D <= l[d]) & (l[d] < E), "between divisors");
        v::ensure((int64_t)g.k[d] * L.l_size[d] <= (int64_t)l[d] * L.nodes.n_divisions[d], "node coordinate");
        v::ensure((int64_t)l[d] * L.nodes.n_divisions[d] < (g.k[d] + 1ll) * L.l_size[d], "node coordinate");
        v::ensure(((q.k[d] + 1ll - g.k[d]) * L.l_size[d] > 0) & ((g.k[d] + 1ll - q.k[d]) * L.l_size[d] > 0), "same node coordinate");
        v::ensure(q.k[d] == g.k[d], "node coordinate of the site");
    }
    // both node numbers have the same digits
    int64_t P[NDIM + 1];
    P[NDIM] = 1;
    for (int d = NDIM - 1; d >= 0; d--) {
        P[d] = L.nodes.n_divisions[d] * P[d + 1];
        v::ensure(P[d] >= 1, "positive");
    }
    v::ensure(P[0] == lat::n_ranks, "number of nodes");
    for (int d = 0; d < NDIM; d++) {
        v::ensure((P[d + 1] - g.q[d + 1]) * L.nodes.n_divisions[d] > 0, "quotient");
        v::ensure(g.q[d + 1] < P[d + 1], "quotient below the remaining divisions");
    }
    for (int d = NDIM - 1; d >= 0; d--) v::ensure(q.q[d] == g.q[d], "same node number");
    v::ensure(L.node_rank(l) == r, "the only node whose box contains the site is its owner");
    v::cover("end");
}
// every off-node neighbour in one direction lives on the same node, whose box continues the box of this node
static void neighbour_node(int dir) {
    const int a = dir < NDIM ? dir : NDIRS - 1 - dir;
    any_division();
    any_ranks();
    any_divisors();
    volume_fits = false;
    int me = v::range("me", 0, (1ll << 31) - 1);
    v::require(me < lat::n_ranks);
    int i = v::uf("inverse", me);
    v::define((i >= 0) & (i < lat::n_ranks) & (v::uf("remap", i) == me));
    Digit g = digits(i);
    node_info n = L.nodes.nodeinfo(me);
    CoordinateVector l[2], m[2];
    NodeNumber q[2];
    for (int s = 0; s < 2; s++) {
        for (int d = 0; d < NDIM; d++) {
            l[s][d] = v::range("site", 0, 1 << 24);
            v::require((l[s][d] >= n.min[d]) & (l[s][d] < n.min[d] + n.size[d]));
            v::ensure((n.min[d] == divisor(d, g.k[d])) & (n.min[d] + n.size[d] == divisor(d, g.k[d] + 1)) & (l[s][d] < L.l_size[d]), "box of this node");
        }
        // the neighbour, outside the box
        m[s] = l[s];
        const int x = l[s][a], S = L.l_size[a], up = x + 1 == S ? 0 : x + 1, dn = x == 0 ? S - 1 : x - 1;
        m[s][a] = dir < NDIM ? up : dn;
        v::require((m[s][a] < n.min[a]) | (m[s][a] >= n.min[a] + n.size[a]));
        q[s] = node_number(m[s]);
    }
    v::ensure(m[0][a] == m[1][a], "one plane of neighbours");
    for (int d = 0; d < NDIM; d++) {
        const int64_t Ld = L.l_size[d], nd = L.nodes.n_divisions[d];
        if (d != a) for (int s = 0; s < 2; s++) {
            v::ensure((g.k[d] + 1ll - q[s].k[d]) * Ld > 0, "not above");
            v::ensure((q[s].k[d] + 1ll - g.k[d]) * Ld > 0, "not below");
            v::ensure(q[s].k[d] == g.k[d], "same node coordinate");
        }
        v::ensure(q[0].k[d] == q[1].k[d], "same node coordinate");
    }
    for (int d = NDIM - 1; d >= 0; d--) {
        use<MulEq>(q[0].q[d + 1], (int64_t)L.nodes.n_divisions[d], q[1].q[d + 1], (int64_t)L.nodes.n_divisions[d]);
        v::ensure(q[0].q[d] == q[1].q[d], "same node number");
    }
    int r = L.node_rank(m[0]), s = L.node_rank(m[1]);
    v::ensure(r == s, "one node holds all off-node neighbours of a direction");
    int ri = v::uf("inverse", r);
    v::ensure(ri == q[0].q[0], "logical number of the neighbour node");
    v::ensure(q[0].q[0] >= 0, "not negative");
    v::ensure(ri >= 0, "not negative");
    Digit h = digits(ri);
    for (int d = 0; d < NDIM; d++) {
        v::ensure((q[0].k[d] >= 0) & (q[0].k[d] < L.nodes.n_divisions[d]), "node coordinate in range");
        v::ensure(h.q[d] == q[0].q[d], "same logical node");
        use<DivMod>(h.q[d], (int64_t)q[0].k[d], (int)L.nodes.n_divisions[d], q[0].q[d + 1]);
    }
    node_info b = L.nodes.nodeinfo(r);
    for (int d = 0; d < NDIM; d++) {
        int64_t D = divisor(d, q[0].k[d]), E = divisor(d, q[0].k[d] + 1);
        v::ensure((b.min[d] == D) & (b.min[d] + b.size[d] == E), "box of the neighbour");
        if (d != a) v::ensure((b.min[d] == n.min[d]) & (b.size[d] == n.size[d]), "same extent in the other directions");
    }
    int64_t D = divisor(a, q[0].k[a]), E = divisor(a, q[0].k[a] + 1);
    v::ensure((m[0][a] - (D - 1)) * L.nodes.n_divisions[a] > 0, "not below the box");
    v::ensure((E - m[0][a]) * L.nodes.n_divisions[a] > 0, "not above the box");
    v::ensure((D <= m[0][a]) & (m[0][a] < E), "the neighbours lie in the box of the neighbour node");
    v::cover("end");
}
#define NEIGHBOUR(d) PROOF(neighbour_node_##d, "stubs=remap+inverse+toolarge+node_rank linfeas noabort") { neighbour_node(d); }
NEIGHBOUR(0) NEIGHBOUR(1)
#if NDIM > 1
NEIGHBOUR(2) NEIGHBOUR(3)
#endif
#if NDIM > 2
NEIGHBOUR(4) NEIGHBOUR(5)
#endif
#if NDIM > 3
NEIGHBOUR(6) NEIGHBOUR(7)
#endif

// create_remap: the map is a bijection of [0,N) and map_inverse is its inverse
static int Wn;                       // an arbitrary logical node number
static int64_t Wt;                   // its image
struct Remap {
    int q[NDIM + 1], l[NDIM], b[NDIM], c[NDIM];
    int64_t I[NDIM + 1], B[NDIM + 1], S[NDIM + 1], T[NDIM + 1], f;
    int fc; // the same number, summed up from x
};
// the documented order: blocks of neighbouring nodes, x fastest, both inside the block and between blocks
static Remap remap_spec(int i, int nblocks, const CoordinateVector &bs, const CoordinateVector &bd) {
    Remap r;
    r.q[0] = i;
    for (int d = 0; d < NDIM; d++) {
        int nd = L.nodes.n_divisions[d];
        r.l[d] = r.q[d] % nd;
        r.q[d + 1] = r.q[d] / nd;
        r.b[d] = r.l[d] / bs[d];
        r.c[d] = r.l[d] % bs[d];
    }
    r.I[NDIM] = r.B[NDIM] = 0;
    r.S[NDIM] = r.T[NDIM] = 1;
    for (int d = NDIM - 1; d >= 0; d--) {
        r.I[d] = r.c[d] + bs[d] * r.I[d + 1];
        r.B[d] = r.b[d] + bd[d] * r.B[d + 1];
        r.S[d] = bs[d] * r.S[d + 1];
        r.T[d] = bd[d] * r.T[d + 1];
    }
    r.f = r.B[0] * r.S[0] + r.I[0];
    int ii = 0, bi = 0, im = 1, bm = 1;
    for (int d = 0; d < NDIM; d++) {
        ii += r.c[d] * im;
        im *= bs[d];
        bi += r.b[d] * bm;
        bm *= bd[d];
    }
    r.fc = bi * nblocks + ii;
    return r;
}
static void remap_range(const Remap &r, int nb, const CoordinateVector &bs, const CoordinateVector &bd) {
    for (int d = 0; d < NDIM; d++) {
        int nd = L.nodes.n_divisions[d];
        use<Floor>(r.q[d], nd);
        v::ensure((r.l[d] >= 0) & (r.l[d] < nd) & (r.q[d] == r.l[d] + (int64_t)nd * r.q[d + 1]) & (r.q[d + 1] >= 0), "node coordinate");
        use<Floor>(r.l[d], (int)bs[d]);
        v::ensure((r.c[d] >= 0) & (r.c[d] < bs[d]) & (r.b[d] >= 0), "position in the block");
        v::ensure((bd[d] - (int64_t)r.b[d]) * bs[d] > 0, "block");
        v::ensure(r.b[d] < bd[d], "block coordinate");
    }
    for (int d = NDIM - 1; d >= 0; d--) {
        v::ensure((r.S[d] >= 1) & (r.T[d] >= 1), "positive");
        v::ensure((r.I[d] >= 0) & (r.I[d] < r.S[d]), "index within a block");
        v::ensure((r.B[d] >= 0) & (r.B[d] < r.T[d]), "index of a block");
    }
    int64_t P = 1;
    for (int d = NDIM - 1; d >= 0; d--) {
        P = L.nodes.n_divisions[d] * P;
        v::ensure(P == r.S[d] * r.T[d], "number of nodes");
    }
    v::ensure((r.f >= 0) & (r.f < P), "in range");
    int64_t ii = 0, bi = 0, im = 1, bm = 1;
    for (int d = 0; d < NDIM; d++) {
        ii += r.c[d] * im;
        im *= bs[d];
        bi += r.b[d] * bm;
        bm *= bd[d];
        v::ensure((ii >= 0) & (ii < im) & (im >= 1) & (bi >= 0) & (bi < bm) & (bm >= 1), "sums");
    }
    v::ensure((ii == r.I[0]) & (bi == r.B[0]) & (im == r.S[0]), "Horner form");
    v::ensure(bi * im + ii == r.f, "number");
    v::ensure(bi * nb + ii == r.f, "number");
    v::ensure(r.fc == r.f, "no overflow");
}
static void any_blocks(CoordinateVector &bs, CoordinateVector &bd) {
    for (int d = 0; d < NDIM; d++) {
        bs[d] = v::range("blocksize", 1, 1 << 24);
        bd[d] = v::range("blockdiv", 1, 1 << 24);
        v::require((int64_t)bs[d] * bd[d] == L.nodes.n_divisions[d]);
    }
}
PROOF(remap_bijective, "linfeas") {
    any_division();
    any_ranks();
    CoordinateVector bs, bd;
    any_blocks(bs, bd);
    int i = v::range("i", 0, (1ll << 31) - 1), j = v::range("j", 0, (1ll << 31) - 1);
    v::require((i < lat::n_ranks) & (j < lat::n_ranks));
    int nb = v::any<int>("nblocks");
    int64_t prod = 1;
    for (int d = NDIM - 1; d >= 0; d--) prod = bs[d] * prod;
    v::require(nb == prod);
    Remap r = remap_spec(i, nb, bs, bd), s = remap_spec(j, nb, bs, bd);
    remap_range(r, nb, bs, bd);
    remap_range(s, nb, bs, bd);
    v::ensure((r.f >= 0) & (r.f < lat::n_ranks), "range");
    v::require(r.f == s.f);
    use<Digits>(r.I[0], s.I[0], r.S[0], r.B[0], s.B[0]);
    for (int d = 0; d < NDIM; d++) {
        use<Digits>((int64_t)r.c[d], (int64_t)s.c[d], (int64_t)bs[d], r.I[d + 1], s.I[d + 1]);
        use<Digits>((int64_t)r.b[d], (int64_t)s.b[d], (int64_t)bd[d], r.B[d + 1], s.B[d + 1]);
        v::ensure(r.l[d] == s.l[d], "same node coordinate");
    }
    int64_t P[NDIM + 1];
    P[NDIM] = 1;
    for (int d = NDIM - 1; d >= 0; d--) P[d] = L.nodes.n_divisions[d] * P[d + 1];
    v::ensure(P[0] == lat::n_ranks, "number of nodes");
    for (int d = 0; d < NDIM; d++) {
        v::ensure((P[d + 1] - r.q[d + 1]) * L.nodes.n_divisions[d] > 0, "quotient");
        v::ensure((P[d + 1] - s.q[d + 1]) * L.nodes.n_divisions[d] > 0, "quotient");
        v::ensure((r.q[d + 1] < P[d + 1]) & (s.q[d + 1] < P[d + 1]), "quotient below the remaining divisions");
    }
    for (int d = NDIM - 1; d >= 0; d--) v::ensure(r.q[d] == s.q[d], "same quotient");
    v::ensure(i == j, "different nodes have different ranks");
    v::cover("end");
}
STUB(memalloc, "^memalloc\\(unsigned long\\)")
extern "C" void *stub_memalloc(size_t n) { return v::array<int>("map", (int64_t)(n / 4)); }
static void blocks_inv(int rest, const CoordinateVector &bs, const CoordinateVector &bd) {
    int64_t p = rest;
    for (int d = 0; d < NDIM; d++) {
        v::inv(((int64_t)bs[d] * bd[d] == L.nodes.n_divisions[d]) & (bs[d] >= 1) & (bs[d] <= NODE_LAYOUT_BLOCK) & (bd[d] >= 1), "blocks divide the node grid");
        p *= bs[d];
    }
    v::inv(p == NODE_LAYOUT_BLOCK, "factors taken");
}
void verif_inv_remap_blocks(int nblocks, const CoordinateVector &bs, const CoordinateVector &bd) {
    v::inv((nblocks >= 1) & (nblocks <= NODE_LAYOUT_BLOCK), "remaining factor");
    blocks_inv(nblocks, bs, bd);
}
void verif_inv_remap_fill(int i, int nblocks, const CoordinateVector &bs, const CoordinateVector &bd) {
    if (!__v_checking()) {
        // the values are only known through the invariant
        v::fill<int>(const_cast<CoordinateVector &>(bs), "blocksize");
        v::fill<int>(const_cast<CoordinateVector &>(bd), "blockdivs");
    }
    for (int d = 0; d < NDIM; d++) v::inv(((int64_t)bs[d] * bd[d] == L.nodes.n_divisions[d]) & (bs[d] >= 1) & (bd[d] >= 1), "blocks divide the node grid");
    v::inv((i >= 0) & (i <= lat::n_ranks), "counter");
    Remap r = remap_spec(i, nblocks, bs, bd), w = remap_spec(Wn, nblocks, bs, bd);
    v::inv(nblocks == r.S[0], "size of a block");
    // proved in remap_bijective
    v::define((w.f >= 0) & (w.f < lat::n_ranks) & (w.fc == w.f));
    if (i < lat::n_ranks) v::define((r.f >= 0) & (r.f < lat::n_ranks) & (w.f >= 0) & (w.f < lat::n_ranks) & ((i == Wn) == (r.f == w.f)) & ((i == Wn) == (r.fc == w.fc)) & (r.fc == r.f) & (w.fc == w.f));
    Wt = w.fc;
    v::inv((Wn >= i) | (L.nodes.map_array[Wn] == w.fc), "nodes already visited are in map_array");
    v::inv((Wn >= i) | (L.nodes.map_inverse[w.fc] == Wn), "nodes already visited are in map_inverse");
}
PROOF(create_remap, "linfeas stubs=memalloc") {
    any_division();
    any_ranks();
    lattice.set_lattice_pointer(&L);
    Wn = v::range("w", 0, (1ll << 31) - 1);
    v::require(Wn < lat::n_ranks);
    L.nodes.create_remap();
    v::ensure((Wt >= 0) & (Wt < lat::n_ranks), "rank in range");
    v::ensure((L.nodes.remap(Wn) == Wt) & (L.nodes.inverse_remap(Wt) == Wn), "inverse_remap inverts remap");
    v::cover("end");
}
#else
// native: a small lattice divided by the real code, checked site by site
static void small_lattice() {
    int64_t N = 1, V = 1;
    lattice.set_lattice_pointer(&L);
    for (int d = 0; d < NDIM; d++) {
        L.l_size[d] = v::range("L", 1, NDIM > 3 ? 7 : 23);
        L.nodes.n_divisions[d] = v::range("ndiv", 1, 8);
        v::require(L.nodes.n_divisions[d] <= L.l_size[d]);
        N *= L.nodes.n_divisions[d];
        V *= L.l_size[d];
    }
    v::require(N <= 256 && V <= 20000);
    lat::n_ranks = L.nodes.number = N;
    L.l_volume = V;
    lat::my_rank = v::range("me", 0, 255) % N;
    for (int d = 0; d < NDIM; d++) L.nodes.divisors[d].clear();
    L.setup_node_divisors();
    L.nodes.create_remap();
    for (int d = 0; d < NDIM; d++)
        for (int k = 0; k <= L.nodes.n_divisions[d]; k++) {
            int64_t D = L.nodes.divisors[d].at(k), n = L.nodes.n_divisions[d], S = L.l_size[d];
            v::ensure(D * n >= k * S && (D - 1) * n < k * S, "node boundary k is ceil(k L/n)");
        }
    std::vector<int> seen(N, 0);
    for (int i = 0; i < N; i++) {
        int r = L.nodes.remap(i);
        v::ensure(r >= 0 && r < N && !seen[r]++, "the rank map is a bijection");
        v::ensure(L.nodes.inverse_remap(r) == i, "inverse_remap inverts remap");
    }
    std::vector<node_info> ni(N);
    std::vector<int64_t> even(N, 0), odd(N, 0);
    for (int r = 0; r < N; r++) ni[r] = L.nodes.nodeinfo(r);
    CoordinateVector c(0);
    for (int64_t i = 0; i < V; i++) {
        int64_t j = i;
        for (int d = 0; d < NDIM; d++) { c[d] = j % L.l_size[d]; j /= L.l_size[d]; }
        int r = L.node_rank(c);
        v::ensure(r >= 0 && r < N, "rank");
        for (int q = 0; q < N; q++) {
            bool in = true;
            for (int d = 0; d < NDIM; d++) in = in && c[d] >= ni[q].min[d] && c[d] < ni[q].min[d] + ni[q].size[d];
            v::ensure(in == (q == r), "a site lies in the box of its owner and of no other node");
        }
        (par(c) ? odd : even)[r]++;
    }
    for (int r = 0; r < N; r++) v::ensure(ni[r].evensites == even[r] && ni[r].oddsites == odd[r], "even and odd sites of a node");
    free(L.nodes.map_array);
    free(L.nodes.map_inverse);
}
PROOF(divisors, "") { small_lattice(); }
PROOF(nodeinfo, "") { small_lattice(); }
PROOF(rank_range, "") { small_lattice(); }
PROOF(owner_box, "") { small_lattice(); }
PROOF(owner_unique, "") { small_lattice(); }
PROOF(remap_bijective, "") { small_lattice(); }
PROOF(create_remap, "") { small_lattice(); }
#endif
