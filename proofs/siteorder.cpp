// C08: running indices, loop ranges and site queries
#include "lat.h"
#include "plumbing/lattice.cpp"
#include "plumbing/site_index.h"
using namespace lat;
static lattice_struct L;
struct FloorU {
    static bool pre(uint64_t u, uint64_t s) { return (s >= 1) & (u < 1ull << 62) & (s < 1ull << 31); }
    static bool post(uint64_t u, uint64_t s) { uint64_t q = u / s, r = u % s; return ((int64_t)q * (int64_t)s <= (int64_t)u) & ((int64_t)u == (int64_t)r + (int64_t)q * (int64_t)s) & (r < s) & (q <= u); }
};
// a mixed radix digit and the rest
struct DivModU {
    static bool pre(uint64_t u, uint64_t x, uint64_t s, uint64_t p) {
        return (u < 1ull << 62) & (x < s) & (s < 1ull << 31) & (p < 1ull << 62) & ((int64_t)u == (int64_t)x + (int64_t)s * (int64_t)p);
    }
    static bool post(uint64_t u, uint64_t x, uint64_t s, uint64_t p) { return (u % s == x) & (u / s == p); }
};
PROOF(lemma_digits, "") { prove<Digits>(arb("x"), arb("y"), arb("s"), arb("p"), arb("q")); }
static uint64_t arbu(const char *n) { return v::range(n, 0, (1ll << 62) - 1); }
PROOF(lemma_flooru, "") { prove<FloorU>(arbu("u"), arbu("s")); }
PROOF(lemma_divmodu, "linfeas") {
    uint64_t u = arbu("u"), x = arbu("x"), s = arbu("s"), p = arbu("p");
    v::require(DivModU::pre(u, x, s, p));
    use<FloorU>(u, s);
    int64_t q = u / s, r = u % s;
    v::ensure((int64_t)(s * p) + (int64_t)x == r + (int64_t)s * q, "division");
    use<Digits>((int64_t)x, r, (int64_t)s, (int64_t)p, q);
    v::ensure(DivModU::post(u, x, s, p), "lemma");
}
static int64_t F[NDIM + 1]; // running products of the lattice sizes
static void any_lattice() {
    F[0] = 1;
    for (int d = 0; d < NDIM; d++) {
#ifdef REPLAY
        int r = v::range("L", 1, 1 << 20);
        L.l_size[d] = r % 4 ? r % 9 + 1 : (r >> 3) % (1 << 17) + 1;
#else
        L.l_size[d] = v::range("L", 1, (1 << 24) - 1);
#endif
        F[d + 1] = F[d] * (int64_t)L.l_size[d];
        v::require((F[d + 1] < 1ll << 50) & (F[d + 1] >= 1));
    }
    L.l_volume = F[NDIM];
    lattice.set_lattice_pointer(&L);
}
static CoordinateVector lattice_site() {
    CoordinateVector l;
    for (int d = 0; d < NDIM; d++) {
        l[d] = v::range("site", 0, 1 << 24);
#ifdef REPLAY
        l[d] = l[d] % L.l_size[d];
#endif
        v::require(l[d] < L.l_size[d]);
    }
    return l;
}
// global index of a site, its range and the way back
PROOF(global_index, "linfeas") {
    any_lattice();
    CoordinateVector c = lattice_site();
    int64_t q[NDIM + 1], s = 0;
    q[NDIM] = 0;
    for (int d = NDIM - 1; d >= 0; d--) q[d] = c[d] + L.l_size[d] * q[d + 1];
    for (int d = 0; d < NDIM; d++) {
        v::ensure((L.l_size[d] - 1 - c[d]) * F[d] >= 0, "digit bound");
        s += F[d] * c[d];
        v::ensure(s < F[d + 1], "partial sum");
    }
    v::ensure(s == q[0], "Horner form");
    for (int d = 0; d < NDIM; d++) v::ensure((q[d] >= 0) & (F[d] * q[d] <= q[0]), "quotients do not grow");
    SiteIndex i(c);
    v::ensure((int64_t)i.value == s, "index is x + nx (y + ny (z + ...))");
    v::ensure(i.value < L.l_volume, "index below the volume");
    for (int d = 0; d < NDIM; d++) {
        v::ensure((F[d] - 1) * q[d] >= 0, "at least one");
        v::ensure((q[d] <= q[0]) & (q[d] < 1ll << 50), "quotient range");
    }
    uint64_t n = i.value;
    for (int d = 0; d < NDIM; d++) {
        v::ensure(n == (uint64_t)q[d], "quotient so far");
        use<DivModU>(n, (uint64_t)c[d], (uint64_t)L.l_size[d], (uint64_t)q[d + 1]);
        v::ensure(n % (uint64_t)L.l_size[d] == (uint64_t)c[d], "digit");
        n /= (uint64_t)L.l_size[d];
    }
    CoordinateVector b = i.coordinates(), g = L.global_coordinates(i.value);
    for (int d = 0; d < NDIM; d++) {
        v::ensure(b[d] == c[d], "SiteIndex::coordinates inverts the constructor");
        v::ensure(g[d] == c[d], "global_coordinates inverts SiteIndex");
    }
    v::cover("end");
}
// every index below the volume comes from a site of the lattice
PROOF(global_surjective, "linfeas") {
    any_lattice();
    uint64_t n = arbu("index");
#ifdef REPLAY
    n %= F[NDIM];
#endif
    v::require((int64_t)n < F[NDIM]);
    int64_t q[NDIM + 1], G[NDIM + 1];
    q[0] = n;
    G[NDIM] = 1;
    for (int d = NDIM - 1; d >= 0; d--) G[d] = G[d + 1] * (int64_t)L.l_size[d];
    v::ensure(G[0] == F[NDIM], "volume");
    for (int d = 0; d < NDIM; d++) {
        use<FloorU>((uint64_t)q[d], (uint64_t)L.l_size[d]);
        q[d + 1] = (uint64_t)q[d] / (uint64_t)L.l_size[d];
        v::ensure((G[d + 1] - q[d + 1]) * L.l_size[d] > 0, "quotient");
        v::ensure(q[d + 1] < G[d + 1], "quotient below the rest of the volume");
    }
    v::ensure(q[NDIM] == 0, "all digits");
    CoordinateVector c = L.global_coordinates(n), b = SiteIndex(n).coordinates();
    int64_t h = 0;
    for (int d = NDIM - 1; d >= 0; d--) {
        v::ensure((c[d] >= 0) & (c[d] < L.l_size[d]), "site of the lattice");
        v::ensure(b[d] == c[d], "same coordinates");
        h = c[d] + L.l_size[d] * h;
        v::ensure(h == q[d], "quotient");
    }
    int64_t s = 0;
    for (int d = 0; d < NDIM; d++) s += F[d] * c[d];
    v::ensure(s == h, "Horner form");
    v::ensure(SiteIndex(c).value == n, "the index of the coordinates is the index");
    v::cover("end");
}
PROOF(loop_ranges, "") {
    Box b = any_box(L.mynode);
    v::ensure(L.loop_begin(ALL) == 0 && L.loop_end(ALL) == b.vol, "ALL is every site");
    v::ensure(L.loop_begin(EVEN) == 0 && L.loop_end(EVEN) == L.mynode.evensites, "EVEN is the even sites");
    v::ensure(L.loop_begin(ODD) == L.mynode.evensites && L.loop_end(ODD) == b.vol, "ODD is the odd sites");
    v::ensure((int64_t)L.mynode.evensites + (int64_t)L.mynode.oddsites == b.vol, "even and odd sites");
}
PROOF(node_queries, "linfeas") {
    any_lattice();
    any_box(L.mynode);
    L.mynode.parent = &L;
    CoordinateVector c;
    for (int d = 0; d < NDIM; d++) {
#ifdef REPLAY
        c[d] = v::range("c", -2, 12);
        L.mynode.min[d] %= 6;
#else
        c[d] = v::range("c", -(1 << 25), 1 << 25);
#endif
    }
    bool in = true;
    for (int d = 0; d < NDIM; d++) in = in & (c[d] >= L.mynode.min[d]) & (c[d] < L.mynode.min[d] + L.mynode.size[d]);
    v::ensure(L.is_on_mynode(c) == in, "is_on_mynode is membership in the box");
    for (int d = 0; d < NDIM; d++) {
        v::ensure(L.mynode.is_on_edge((Direction)d) == (L.mynode.min[d] + L.mynode.size[d] == L.l_size[d]), "upper edge");
        v::ensure(L.mynode.is_on_edge(-(Direction)d) == (L.mynode.min[d] == 0), "lower edge");
        v::ensure(lattice.size((Direction)d) == L.l_size[d] && lattice.size(d) == L.l_size[d] && lattice.size()[d] == L.l_size[d], "lattice.size");
    }
    v::ensure(lattice.volume() == (int64_t)L.l_volume, "lattice.volume");
}
PROOF(site_coordinates, "") {
    int64_t n = v::range("n", 1, 1ll << 30), i = v::range("i", 0, 1ll << 30);
#ifdef REPLAY
    n = n % 50 + 1;
    i = i % n;
    L.mynode.coordinates.resize(n);
    CoordinateVector *a = L.mynode.coordinates.data();
    for (int k = 0; k < n; k++) v::fill<int>(a[k], "coordinates");
#else
    CoordinateVector *a = v::array_of<CoordinateVector, int>("coordinates", n);
    auto &p = L.mynode.coordinates;
    p._M_impl._M_start = a;
    p._M_impl._M_finish = p._M_impl._M_end_of_storage = a + n;
#endif
    v::require(i < n);
    int s = 0;
    for (int d = 0; d < NDIM; d++) {
        v::require((a[i][d] >= 0) & (a[i][d] < 1 << 24));
        s += a[i][d];
    }
    const CoordinateVector &c = L.coordinates(i);
    for (int d = 0; d < NDIM; d++) {
        v::ensure(c[d] == a[i][d], "coordinates of the site");
        v::ensure(L.coordinate(i, (Direction)d) == a[i][d], "one coordinate");
    }
    v::ensure(L.site_parity(i) == (s % 2 == 0 ? EVEN : ODD), "parity of the site");
}
