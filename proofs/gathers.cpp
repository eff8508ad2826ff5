// C10: neighbour tables and the lists of sites exchanged between nodes
#ifndef SPECIAL_BOUNDARY_CONDITIONS
#define SPECIAL_BOUNDARY_CONDITIONS
#endif
#include "lat.h"
#ifdef REPLAY
namespace hila { template <> int reduce_node_sum<int>(int &v, bool) { return v; } }
#endif
#include "plumbing/lattice.cpp"
#ifdef REPLAY
#include "plumbing/map_node_layout.cpp"
#include "plumbing/setup_layout_generic.cpp"
#include "world.h"
#endif
using namespace lat;
static lattice_struct L;
static struct { int64_t vol; } B;
static int64_t w; // an arbitrary site index
static int D0;    // the direction whose loops are examined
static inline int b2i(bool b) { return b; }
static inline int64_t uf4(const char *n, const char *m, const CoordinateVector &l) {
    int64_t r = l[0];
    for (int d = 1; d < NDIM; d++) r = v::uf(n, r, l[d], d);
    return v::uf(m, r);
}
static int64_t SI(const CoordinateVector &l) { return uf4("si", "site_index", l); }
static int64_t NR(const CoordinateVector &l) { return uf4("nr", "node_rank", l); }
static bool inbox(const CoordinateVector &l) {
    bool r = true;
    for (int d = 0; d < NDIM; d++) r = r & (l[d] >= L.mynode.min[d]) & (l[d] < L.mynode.min[d] + L.mynode.size[d]);
    return r;
}
// contracts of is_on_mynode and parity as functions of the coordinates (C08, C07)
static bool on(const CoordinateVector &l) { return uf4("on", "on_node", l) == 1; }
static bool ev(const CoordinateVector &l) { return uf4("pr", "parity", l) == 0; }
static bool inlattice(const CoordinateVector &l) {
    bool r = true;
    for (int d = 0; d < NDIM; d++) r = r & (l[d] >= 0) & (l[d] < L.l_size[d]);
    return r;
}
// site j, its neighbour to direction d, and the numbers of off-node sites before j
struct Site {
    CoordinateVector l, n;
    bool off, even, neven;
    int64_t nr;
    unsigned first; // index of the neighbour, or the marker for off-node
    int64_t E, O, TE, TO; // off-node sites with smaller index: even, odd, with even, odd neighbour
    int64_t E1, O1, TE1, TO1;
};
static CoordinateVector neighbour(const CoordinateVector &l, int d) {
    CoordinateVector n = l;
    const int a = d < NDIM ? d : NDIRS - 1 - d;
    const int x = l[a], s = L.l_size[a], u = x + 1, o = x - 1, e = s - 1;
    const int up = u == s ? 0 : u, dn = x == 0 ? e : o;
    n[a] = d < NDIM ? up : dn;
    return n;
}
#ifndef REPLAY
static Site site(int d, int64_t j) {
    Site s;
    s.l = L.mynode.coordinates[j];
    // contract of coordinates (node_setup in layout.cpp): a site of the box, even sites first, inverse of site_index
    v::define(inbox(s.l) & ((j < (int64_t)L.mynode.evensites) == ev(s.l)) & (SI(s.l) == j));
    s.n = neighbour(s.l, d);
    s.off = !on(s.n);
    s.even = j < (int64_t)L.mynode.evensites;
    s.neven = ev(s.n);
    s.E = v::uf("E", d, j); s.O = v::uf("O", d, j); s.TE = v::uf("TE", d, j); s.TO = v::uf("TO", d, j);
    s.E1 = s.E + b2i(s.off & s.even);
    s.O1 = s.O + b2i(s.off & !s.even);
    s.TE1 = s.TE + b2i(s.off & s.neven);
    s.TO1 = s.TO + b2i(s.off & !s.neven);
    // definition of the counters
    v::define((v::uf("E", d, 0) == 0) & (v::uf("O", d, 0) == 0) & (v::uf("TE", d, 0) == 0) & (v::uf("TO", d, 0) == 0));
    v::define((v::uf("E", d, j + 1) == s.E1) & (v::uf("O", d, j + 1) == s.O1) & (v::uf("TE", d, j + 1) == s.TE1) & (v::uf("TO", d, j + 1) == s.TO1));
    // contracts of site_index and node_rank
    const int64_t si = SI(s.n);
    const unsigned sf = si, sv = B.vol;
    s.nr = NR(s.n);
    s.first = s.off ? sv : sf;
    v::define(s.off | ((si >= 0) & (si < B.vol)));
    v::define(!s.off | ((NR(s.n) >= 0) & (NR(s.n) < 1ll << 31) & (NR(s.n) != my_rank) & (NR(s.n) == v::uf("neighbour_node", d))));
    return s;
}
STUB(site_index, "^lattice_struct::site_index\\(")
extern "C" unsigned stub_site_index(const lattice_struct *lp, const CoordinateVector &l) {
    v::ensure(on(l), "site_index of a site on this node");
    int64_t r = SI(l);
    v::define((r >= 0) & (r < B.vol));
    return r;
}
STUB(is_on_mynode, "^lattice_struct::is_on_mynode\\(")
extern "C" bool stub_is_on_mynode(const lattice_struct *lp, const CoordinateVector &l) { return on(l); }
STUB(parity, "^CoordinateVector_t<int>::parity\\(")
extern "C" Parity stub_parity(const CoordinateVector *l) { return ev(*l) ? EVEN : ODD; }
// contract of mod, proved in step
static int wrap(int x, int s) { return x < 0 ? x + s : (x >= s ? x - s : x); }
STUB(mod, "^CoordinateVector_t<int>::mod\\(")
extern "C" CoordinateVector stub_mod(const CoordinateVector *x, const CoordinateVector &s) {
    CoordinateVector r;
    bool ok = true;
    for (int d = 0; d < NDIM; d++) {
        ok = ok & ((*x)[d] >= -s[d]) & ((*x)[d] < 2 * s[d]) & (s[d] > 0);
        r[d] = wrap((*x)[d], s[d]);
    }
    v::ensure(ok, "at most one wrap");
    return r;
}
PROOF(step, "") {
    CoordinateVector x, s;
    for (int d = 0; d < NDIM; d++) {
        s[d] = v::range("s", 1, 1 << 25);
        x[d] = v::range("x", -(1 << 25), 1 << 26);
        v::require((x[d] >= -s[d]) & (x[d] < 2 * s[d]));
    }
    CoordinateVector r = x.mod(s);
    for (int d = 0; d < NDIM; d++) v::ensure(r[d] == wrap(x[d], s[d]), "mod wraps once");
}
STUB(node_rank, "^lattice_struct::node_rank\\(")
extern "C" int stub_node_rank(const lattice_struct *lp, const CoordinateVector &l) {
    v::ensure(inlattice(l), "node_rank of a lattice site");
    int64_t r = NR(l);
    v::define((r >= 0) & (r < 1ll << 31));
    return r;
}
STUB(memalloc, "^memalloc\\(")
extern "C" void *stub_memalloc(size_t n) { return v::array_of<unsigned, unsigned>("memalloc", n / sizeof(unsigned)); }
STUB(sum, "^int hila::reduce_node_sum<int>\\(")
extern "C" int stub_sum(int &x, bool) {
    int r = v::any<int>("sum");
    v::define((x <= 0) | (r > 0));
    return r;
}
STUB(toolarge, "^report_too_large_node\\(")
extern "C" void stub_toolarge() { __v_stop(); }
static void count_at(int d, int64_t i, const Site &s, int64_t j, unsigned rank) {
    v::inv((j >= i) | (L.neighb[d][j] == s.first), "neighbour or marker");
    v::inv((j >= i) | ((s.E1 <= v::uf("E", d, i)) & (s.O1 <= v::uf("O", d, i)) & (s.TE1 <= v::uf("TE", d, i)) & (s.TO1 <= v::uf("TO", d, i))), "counters grow");
    v::inv((s.E >= 0) & (s.O >= 0) & (s.TE >= 0) & (s.TO >= 0) | (j >= i), "not negative");
    v::inv((j >= i) | !s.off | (rank == s.nr), "rank of the neighbour node");
}
void verif_inv_gather_count(int d, size_t i, size_t from_even, size_t from_odd, size_t to_even, size_t to_odd, unsigned from_rank, unsigned to_rank) {
    if (d != D0) { // examined in the instance for d; only the counts matter here
        if (__v_checking()) return;
        v::inv((from_even + from_odd == to_even + to_odd) & (from_even <= i) & (from_odd <= i) & (from_even + from_odd <= i) & (i <= B.vol), "counts");
        __v_focus(false, i >= B.vol);
        return;
    }
    const size_t ii = i < B.vol ? i : 0;
    Site s = site(d, w), c = site(d, ii);
    const int64_t E = v::uf("E", d, i), O = v::uf("O", d, i), TE = v::uf("TE", d, i), TO = v::uf("TO", d, i);
    v::inv(i <= B.vol, "counter");
    v::inv((from_even == E) & (from_odd == O), "sites to receive");
    v::inv((to_even == TE) & (to_odd == TO), "sites to send");
    v::inv((E >= 0) & (O >= 0) & (TE >= 0) & (TO >= 0) & (E <= i) & (O <= i) & (E + O <= i) & (E + O == TE + TO), "counts");
    v::inv((from_rank == to_rank) & ((E + O > 0) | (from_rank == my_rank)) & ((E + O <= 0) | (from_rank == v::uf("neighbour_node", d))), "rank");
    count_at(d, i, s, w, from_rank);
}
static void list_at(int d, int64_t i, const Site &s, int64_t j) {
    const auto &from = L.nn_comminfo[d].from_node, &to = L.nn_comminfo[NDIRS - 1 - d].to_node;
    const int64_t VE = v::uf("E", d, B.vol), VO = v::uf("O", d, B.vol), VTE = v::uf("TE", d, B.vol), VTO = v::uf("TO", d, B.vol);
    // established by the first loop for every site
    v::inv((s.E1 <= VE) & (s.O1 <= VO) & (s.TE1 <= VTE) & (s.TO1 <= VTO) & (s.E >= 0) & (s.O >= 0) & (s.TE >= 0) & (s.TO >= 0), "within the buffers");
    const int64_t ko = VE + s.O, ks = s.even ? s.E : ko;
    const unsigned slot = from.buffer + ks, nb = s.off & (j < i) ? slot : s.first;
    v::inv(L.neighb[d][j] == nb, "neighbour index");
    const int64_t to1 = VTE + s.TO, k1 = s.neven ? s.TE : to1, k = s.off ? k1 : 0;
    v::inv((j >= i) | !s.off | (to.sitelist[k] == j), "list of sites to send");
    v::inv((j >= i) | ((s.TE1 <= v::uf("TE", d, i)) & (s.TO1 <= v::uf("TO", d, i))), "counters grow");
}
void verif_inv_gather_lists(int d, size_t i, size_t from_even, size_t from_odd, size_t to_even, size_t to_odd) {
    if (d != D0) {
        if (__v_checking()) return;
        __v_focus(false, i >= B.vol);
        return;
    }
    const size_t ii = i < B.vol ? i : 0;
    Site s = site(d, w), c = site(d, ii);
    v::inv(i <= B.vol, "counter");
    v::inv((from_even == v::uf("E", d, i)) & (from_odd == v::uf("O", d, i)), "slots used");
    v::inv((to_even == v::uf("TE", d, i)) & (to_odd == v::uf("TO", d, i)), "list entries used");
    list_at(d, i, s, w);
    if (!__v_checking()) list_at(d, i, c, ii); // the invariant holds for every site, so for this one
}
static void setup() {
    B.vol = v::range("volume", 1, (1ll << 31) - 1);
    L.mynode.volume = B.vol;
    L.mynode.evensites = v::range("evensites", 0, B.vol);
    for (int d = 0; d < NDIM; d++) {
        L.mynode.min[d] = v::range("min", 0, 1 << 24);
        L.mynode.size[d] = v::range("size", 1, 1 << 24);
        L.l_size[d] = v::range("L", 1, 1 << 25);
        v::require(L.mynode.min[d] + L.mynode.size[d] <= L.l_size[d]);
    }
    lattice.set_lattice_pointer(&L);
    my_rank = v::range("me", 0, 1 << 30);
    L.mynode.rank = my_rank;
    CoordinateVector *a = v::array_of<CoordinateVector, int>("coordinates", B.vol);
    auto &p = L.mynode.coordinates;
    p._M_impl._M_start = a;
    p._M_impl._M_finish = p._M_impl._M_end_of_storage = a + B.vol;
}
static void std_gathers(int dir) {
    D0 = dir;
    setup();
    w = v::range("w", 0, 1ll << 31);
    v::require(w < B.vol);
    L.create_std_gathers();
    int64_t off = B.vol;
    for (int d = 0; d < D0; d++) off += L.nn_comminfo[d].from_node.sites;
    const auto &from = L.nn_comminfo[D0].from_node, &to = L.nn_comminfo[NDIRS - 1 - D0].to_node;
    Site s = site(D0, w);
    const int64_t VE = v::uf("E", D0, B.vol), VO = v::uf("O", D0, B.vol), VTE = v::uf("TE", D0, B.vol), VTO = v::uf("TO", D0, B.vol);
    v::ensure((int64_t)from.buffer == off, "buffers follow each other");
    v::ensure(((int64_t)from.evensites == VE) & ((int64_t)from.oddsites == VO) & ((int64_t)from.sites == VE + VO), "sites to receive");
    v::ensure(((int64_t)to.evensites == VTE) & ((int64_t)to.oddsites == VTO) & ((int64_t)to.sites == VTE + VTO), "sites to send");
    v::ensure((from.sites == to.sites) & (from.rank == to.rank), "as many sites sent as received");
    v::ensure(!s.off | (from.rank == s.nr), "messages come from the node of the neighbours");
    v::ensure((VE + VO > 0) | (from.rank == my_rank), "no messages");
    const int64_t ko = VE + s.O, ks = s.even ? s.E : ko;
    const unsigned slot = from.buffer + ks;
    v::ensure(s.off | (L.neighb[D0][w] == SI(s.n)), "neighbour on this node");
    v::ensure(!s.off | (L.neighb[D0][w] == slot), "neighbour in the receive buffer");
    if (s.off) v::ensure(to.sitelist[s.neven ? s.TE : VTE + s.TO] == w, "site is sent");
    off = B.vol;
    for (int d = 0; d < NDIRS; d++) off += L.nn_comminfo[d].from_node.sites;
    v::ensure((int64_t)L.mynode.field_alloc_size == off, "allocation covers the buffers");
    v::cover("end");
}
#define GATHERS(d) PROOF(std_gathers_##d, "linfeas near=2 fastdry lossyptr stubs=site_index+node_rank+is_on_mynode+parity+mod+memalloc+sum+toolarge") { std_gathers(d); }
GATHERS(0) GATHERS(1)
#if NDIM > 1
GATHERS(2) GATHERS(3)
#endif
#if NDIM > 2
GATHERS(4) GATHERS(5)
#endif
#if NDIM > 3
GATHERS(6) GATHERS(7)
#endif

// The sender lists its sites in the order in which the receiver numbers its slots: both count the sites of a
// plane, and the order of two sites of one parity is the same on both nodes.
struct Lex {
    static bool pre(int64_t x, int64_t y, int64_t s, int64_t, int64_t) { return (0 <= x) & (x < s) & (0 <= y) & (y < s); }
    static bool post(int64_t x, int64_t y, int64_t s, int64_t p, int64_t q) {
        return ((x + s * p < y + s * q) == ((p < q) | ((p == q) & (x < y)))) & ((x + s * p == y + s * q) == ((p == q) & (x == y)));
    }
};
PROOF(lemma_lex, "") {
    int64_t x = arb("x"), y = arb("y"), s = arb("s"), p = arb("p"), q = arb("q");
    v::require(Lex::pre(x, y, s, p, q));
    v::ensure((p >= q) | (s * (q - p - 1) >= 0), "product");
    v::ensure((q >= p) | (s * (p - q - 1) >= 0), "product");
    v::ensure((p != q) | (s * p == s * q), "product");
    v::ensure(Lex::post(x, y, s, p, q), "lemma");
}
static Box BX[2];
static lattice_struct M[2];
STUB(logical, "node_struct::get_logical_index")
extern "C" unsigned stub_logical(const lattice_struct::node_struct *n, const CoordinateVector &l) {
    const Box &b = n == &M[0].mynode ? BX[0] : BX[1];
    int64_t s = 0;
    bool in = true;
    for (int d = 0; d < NDIM; d++) {
        in = in & (l[d] >= n->min[d]) & (l[d] - n->min[d] < n->size[d]);
        s += (l[d] - n->min[d]) * b.sf[d];
    }
    v::ensure(in, "site is on this node");
    unsigned r = s;
    v::define(((int64_t)r == s) & (s < b.vol) & (s >= 0));
    return r;
}
static void slot_order(int dir) {
    const int a = dir < NDIM ? dir : NDIRS - 1 - dir;
    BX[0] = any_box(M[0].mynode);
    BX[1] = any_box(M[1].mynode);
    for (int d = 0; d < NDIM; d++)
        if (d != a) v::require((M[0].mynode.min[d] == M[1].mynode.min[d]) & (M[0].mynode.size[d] == M[1].mynode.size[d]));
    CoordinateVector l[2], m[2];
    for (int s = 0; s < 2; s++) {
        l[s] = any_site(M[0].mynode);
        m[s] = l[s];
        const auto &x = M[0].mynode, &y = M[1].mynode;
        const int e0 = x.min[a] + x.size[a] - 1, e1 = y.min[a] + y.size[a] - 1;
        l[s][a] = dir < NDIM ? e0 : x.min[a];
        m[s][a] = dir < NDIM ? y.min[a] : e1;
    }
    v::require(par(l[0]) == par(l[1]));
    v::ensure(par(m[0]) == par(m[1]), "neighbours of equal parity");
    int64_t q[2][2][NDIM + 1], u[2][2];
    for (int k = 0; k < 2; k++)
        for (int s = 0; s < 2; s++) {
            const CoordinateVector &c = k ? m[s] : l[s];
            Horner h = horner(M[k].mynode, BX[k], c);
            for (int d = 0; d <= NDIM; d++) q[k][s][d] = h.q[d];
            u[k][s] = 0;
            for (int d = 0; d < NDIM; d++) u[k][s] += (c[d] - M[k].mynode.min[d]) * BX[k].sf[d];
            v::ensure(u[k][s] == q[k][s][0], "Horner form");
        }
    for (int d = NDIM - 1; d >= 0; d--) {
        for (int k = 0; k < 2; k++) {
            const CoordinateVector &c0 = k ? m[0] : l[0], &c1 = k ? m[1] : l[1];
            use<Lex>((int64_t)(c0[d] - M[k].mynode.min[d]), (int64_t)(c1[d] - M[k].mynode.min[d]), (int64_t)M[k].mynode.size[d], q[k][0][d + 1], q[k][1][d + 1]);
        }
        v::ensure(((q[0][0][d] < q[0][1][d]) == (q[1][0][d] < q[1][1][d])) & ((q[0][0][d] == q[0][1][d]) == (q[1][0][d] == q[1][1][d])), "same order on both nodes");
    }
    const int64_t a0 = M[0].site_index(l[0]), a1 = M[0].site_index(l[1]), b0 = M[1].site_index(m[0]), b1 = M[1].site_index(m[1]);
    // contract of site_index: one to one (site_index_injective in layout.cpp)
    bool same = true;
    for (int d = 0; d < NDIM; d++) same = same & (l[0][d] == l[1][d]);
    v::define((a0 != a1) | same);
    v::define((b0 != b1) | same);
    v::ensure((a0 < a1) == (u[0][0] < u[0][1]), "order of the site indices");
    v::ensure((b0 < b1) == (u[1][0] < u[1][1]), "order of the site indices");
    v::ensure((a0 < a1) == (b0 < b1), "sender and receiver order the sites of a plane in the same way");
    v::cover("end");
}
#define ORDER(d) PROOF(slot_order_##d, "linfeas stubs=logical") { slot_order(d); }
ORDER(0) ORDER(1)
#if NDIM > 1
ORDER(2) ORDER(3)
#endif
#if NDIM > 2
ORDER(4) ORDER(5)
#endif
#if NDIM > 3
ORDER(6) ORDER(7)
#endif

// which list entries and which part of the buffer belong to a parity
static void message_accessors(lattice_struct::comm_node_struct &c) {
    const int64_t E = v::range("even", 0, (1 << 30) - 1), O = v::range("odd", 0, (1 << 30) - 1), b = v::range("buffer", 0, 1ll << 31);
    c.evensites = E;
    c.oddsites = O;
    c.sites = E + O;
    c.buffer = b;
    c.sitelist = v::array<unsigned>("sitelist", E + O);
    int n = -1;
    v::require(E + O >= 1);
    v::ensure(c.get_sitelist(ALL, n) == c.sitelist && n == E + O, "list of ALL");
    v::ensure(c.get_sitelist(EVEN, n) == c.sitelist && n == E, "list of EVEN");
    v::ensure(c.get_sitelist(ODD, n) == c.sitelist + E && n == O, "list of ODD");
    v::ensure((c.n_sites(ALL) == E + O) & (c.n_sites(EVEN) == E) & (c.n_sites(ODD) == O), "number of sites");
    v::ensure((c.offset(ALL) == b) & (c.offset(EVEN) == b) & (c.offset(ODD) == b + E), "place in the buffer");
    const int64_t k = v::range("k", 0, 1ll << 31);
    if (k < E + O) v::ensure(c.site_index(k, ALL) == c.sitelist[k], "site of ALL");
    if (k < E) v::ensure(c.site_index(k, EVEN) == c.sitelist[k], "site of EVEN");
    if (k < O) v::ensure(c.site_index(k, ODD) == c.sitelist[E + k], "site of ODD");
    lat::my_rank = v::range("me", 0, 1 << 30);
    c.init();
    v::ensure((c.sites == 0) & (c.evensites == 0) & (c.oddsites == 0) & (c.buffer == 0) & (c.sitelist == nullptr) & (c.rank == (unsigned)lat::my_rank), "initially no message");
}
PROOF(accessors, "linfeas") { message_accessors(L.nn_comminfo[0].from_node); }

// wait arrays: the bit of a direction says that the neighbour is in a receive buffer
STUB(membytes, "^memalloc\\(")
extern "C" void *stub_membytes(size_t n) { return v::array_of<unsigned char, unsigned char>("wait", n); }
static unsigned char waits(int64_t j) {
    unsigned char m = 0;
    for (int d = 0; d < NDIRS; d++) {
        const unsigned char bit = 1u << d;
        m |= L.neighb[d][j] >= B.vol ? bit : (unsigned char)0;
    }
    return m;
}
void verif_inv_wait_arrays(size_t i) {
    v::inv(i <= B.vol, "counter");
    v::inv((w >= i) | (L.wait_arr_[w] == waits(w)), "bits set so far");
}
static void any_neighbours() {
    for (int d = 0; d < NDIRS; d++) L.neighb[d] = v::array<unsigned>("neighb", B.vol);
}
PROOF(wait_arrays, "linfeas stubs=membytes") {
    setup();
    any_neighbours();
    w = v::range("w", 0, 1ll << 31);
    v::require(w < B.vol);
    L.initialize_wait_arrays();
    v::ensure(L.wait_arr_[w] == waits(w), "one bit per direction whose neighbour is off this node");
    v::cover("end");
}

// special boundaries: the sites of the outermost plane whose neighbour wraps round to this node
static bool edge(int d) {
    const int a = d < NDIM ? d : NDIRS - 1 - d;
    const bool up = L.mynode.min[a] + L.mynode.size[a] == L.l_size[a], dn = L.mynode.min[a] == 0;
    return d < NDIM ? up : dn;
}
static bool needed(int d) { return edge(d) & (L.nodes.n_divisions[d < NDIM ? d : NDIRS - 1 - d] == 1); }
struct Plane {
    bool in, even;
    int64_t T, E, O, T1, E1, O1; // sites of the plane before this one: all, even, odd
};
static Plane plane(int d, int64_t j) {
    Plane p;
    const CoordinateVector &l = L.mynode.coordinates[j];
    const int a = d < NDIM ? d : NDIRS - 1 - d, top = L.l_size[a] - 1;
    v::define(inbox(l) & ((j < (int64_t)L.mynode.evensites) == ev(l)));
    p.in = l[a] == (d < NDIM ? top : 0);
    p.even = j < (int64_t)L.mynode.evensites;
    p.T = v::uf("BT", d, j); p.E = v::uf("BE", d, j); p.O = v::uf("BO", d, j);
    p.T1 = p.T + b2i(p.in); p.E1 = p.E + b2i(p.in & p.even); p.O1 = p.O + b2i(p.in & !p.even);
    v::define((v::uf("BT", d, 0) == 0) & (v::uf("BE", d, 0) == 0) & (v::uf("BO", d, 0) == 0));
    v::define((v::uf("BT", d, j + 1) == p.T1) & (v::uf("BE", d, j + 1) == p.E1) & (v::uf("BO", d, j + 1) == p.O1));
    return p;
}
static void counted(int d, int64_t i) {
    const int64_t T = v::uf("BT", d, i), E = v::uf("BE", d, i), O = v::uf("BO", d, i);
    v::inv((T == E + O) & (E >= 0) & (O >= 0) & (T <= i), "counts");
    v::inv((i > (int64_t)L.mynode.evensites) | (O == 0), "even sites come first");
    v::inv((i < (int64_t)L.mynode.evensites) | (E == v::uf("BE", d, L.mynode.evensites)), "even sites come first");
}
void verif_inv_boundary_count(int d, unsigned i) {
    const auto &b = L.special_boundaries[d];
    if (d != D0) {
        if (__v_checking()) return;
        v::inv((b.n_total <= i) & (i <= B.vol), "counter");
        __v_focus(false, i >= B.vol);
        return;
    }
    plane(d, i < B.vol ? i : 0);
    const int64_t T = v::uf("BT", d, i), E = v::uf("BE", d, i), O = v::uf("BO", d, i);
    v::inv(i <= B.vol, "counter");
    v::inv(((int64_t)b.n_total == T) & ((int64_t)b.n_even == E) & ((int64_t)b.n_odd == O), "sites of the plane so far");
    counted(d, i);
}
#define BSTUBS " stubs=parity+memalloc+sum+toolarge+mod"
static void special_init(int dir) {
    D0 = dir;
    setup();
    for (int d = 0; d < NDIM; d++) L.nodes.n_divisions[d] = v::range("ndiv", 1, 1 << 24);
    const int64_t f0 = v::range("alloc", 0, 1ll << 33);
    L.mynode.field_alloc_size = f0;
    L.init_special_boundaries();
    int64_t off = f0;
    for (int d = 0; d < NDIRS; d++) {
        const auto &b = L.special_boundaries[d];
        const bool nd = needed(d);
        v::ensure(b.is_needed == nd, "needed on the outer edge of an undivided direction");
        if (d == dir) {
            const int64_t T = nd ? v::uf("BT", d, B.vol) : 0, E = nd ? v::uf("BE", d, B.vol) : 0, O = nd ? v::uf("BO", d, B.vol) : 0;
            v::ensure(((int64_t)b.n_total == T) & ((int64_t)b.n_even == E) & ((int64_t)b.n_odd == O), "number of sites of the plane");
        }
        v::ensure(!nd | ((int64_t)b.offset == off), "buffers follow each other");
        v::ensure(nd | (b.n_total == 0), "nothing");
        v::ensure(b.neighbours == nullptr, "not set up yet");
        off += b.n_total;
    }
    v::ensure((int64_t)L.mynode.field_alloc_size == off, "allocation covers the planes");
    v::cover("end");
}
static void array_at(int d, int64_t i, const Plane &p, int64_t j) {
    const auto &b = L.special_boundaries[d];
    const int64_t T = v::uf("BT", d, B.vol);
    v::inv((p.T >= 0) & (p.T1 <= T), "within the plane"); // established by the counting loop for every site
    const unsigned slot = b.offset + p.T, nb = p.in ? slot : L.neighb[d][j];
    v::inv((j >= i) | (b.neighbours[j] == nb), "neighbour index");
    const int64_t k = p.in ? p.T : 0;
    v::inv((j >= i) | !p.in | (p.T1 <= v::uf("BT", d, i)), "list grows");
    v::inv((j >= i) | !p.in | (b.move_index[k] == L.neighb[d][j]), "source of the copy");
}
void verif_inv_boundary_array(int d, int i, int k, int offs) {
    v::inv((i >= 0) & (i <= B.vol), "counter");
    const int64_t ii = i < B.vol ? i : 0;
    Plane s = plane(d, w), c = plane(d, ii);
    const int64_t T = v::uf("BT", d, i);
    v::inv((k == T) & (T <= v::uf("BT", d, B.vol)) & (T >= 0), "sites of the plane so far");
    v::inv((int64_t)offs == (int64_t)L.special_boundaries[d].offset + T, "next slot");
    array_at(d, i, s, w);
    if (!__v_checking()) v::define(c.T1 <= v::uf("BT", d, B.vol));
}
static void special_array(int d) {
    setup();
    any_neighbours();
    w = v::range("w", 0, 1ll << 31);
    v::require(w < B.vol);
    auto &b = L.special_boundaries[d];
    b.is_needed = v::any<bool>("needed");
    b.offset = v::range("offset", 0, (1ll << 31) - 1);
    b.n_total = v::uf("BT", d, B.vol);
    b.n_even = v::uf("BE", d, B.vol);
    b.neighbours = nullptr;
    v::require(((int64_t)b.n_total >= 1) & ((int64_t)b.n_total <= B.vol) & ((int64_t)b.offset + (int64_t)b.n_total < (1ll << 31)));
    const Plane s = plane(d, w);
    v::define((s.T >= 0) & (s.T1 <= (int64_t)b.n_total)); // counting loop, any site
    const bool bc = v::any<bool>("anti");
    const unsigned *n = L.get_neighbour_array((Direction)d, bc ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC);
    if (!bc | !b.is_needed) {
        v::ensure(n == L.neighb[d], "ordinary neighbours");
    } else {
        const unsigned slot = b.offset + s.T;
        v::ensure(n == b.neighbours, "special neighbours");
        v::ensure(n[w] == (s.in ? slot : L.neighb[d][w]), "sites of the plane point to the copied values");
        if (s.in) v::ensure(b.move_index[s.T] == L.neighb[d][w], "the copied value is that of the neighbour");
        v::cover("special");
    }
}
#define SPECIAL(d) PROOF(special_init_##d, "linfeas near=2 fastdry lossyptr" BSTUBS) { special_init(d); } \
    PROOF(special_array_##d, "linfeas near=2 fastdry lossyptr" BSTUBS) { special_array(d); }
SPECIAL(0) SPECIAL(1)
#if NDIM > 1
SPECIAL(2) SPECIAL(3)
#endif
#if NDIM > 2
SPECIAL(4) SPECIAL(5)
#endif
#if NDIM > 3
SPECIAL(6) SPECIAL(7)
#endif
#endif // not REPLAY
#ifdef REPLAY
// native: all nodes of a small lattice, their neighbour tables and messages compared site by site
static void small_world() {
    World w;
    if (!any_world(w)) return;
    w.gathers();
    for (int r = 0; r < w.n; r++) {
        lattice_struct &l = w.use(r);
        const size_t vol = l.mynode.volume;
        size_t off = vol;
        std::vector<int> used;
        for (int d = 0; d < NDIRS; d++) {
            auto &from = l.nn_comminfo[d].from_node;
            v::ensure(from.buffer == off && from.sites == from.evensites + from.oddsites, "receive buffers follow each other");
            off += from.sites;
        }
#ifdef SPECIAL_BOUNDARY_CONDITIONS
        for (int d = 0; d < NDIRS; d++) {
            auto &b = l.special_boundaries[d];
            const int a = World::axis(d);
            const bool need = l.nodes.n_divisions[a] == 1;
            v::ensure(b.is_needed == need, "special boundary of an undivided direction");
            if (need) { v::ensure(b.offset == off && b.n_total == vol / l.mynode.size[a] && b.n_even + b.n_odd == b.n_total, "special boundary buffer"); off += b.n_total; }
        }
#endif
        v::ensure(l.mynode.field_alloc_size == off, "allocation covers the buffers");
        for (int d = 0; d < NDIRS; d++) {
            auto &from = l.nn_comminfo[d].from_node;
            std::vector<int> slot(from.sites, 0);
            for (size_t i = 0; i < vol; i++) {
                CoordinateVector c = l.mynode.coordinates[i], n = w.nb(c, d);
                const unsigned k = l.neighb[d][i];
                const bool off = !w.inside(r, n);
                v::ensure(((l.wait_arr_[i] >> d) & 1) == off, "wait bit");
                if (!off) {
                    v::ensure(k < vol && l.mynode.coordinates[k] == n, "neighbour on this node");
                    continue;
                }
                const int o = w.owner(n);
                v::ensure(from.rank == (unsigned)o, "messages come from the owner of the neighbour");
                v::ensure(k >= from.buffer && k < from.buffer + from.sites && !slot[k - from.buffer]++, "own slot in the buffer");
                const unsigned s = k - from.buffer;
                v::ensure((s < from.evensites) == (par(c) == 0), "even sites first");
                auto &to = w.node[o]->nn_comminfo[d].to_node;
                v::ensure(to.rank == (unsigned)r && to.sites == from.sites && to.evensites == from.evensites, "sender and receiver agree");
                v::ensure(w.node[o]->mynode.coordinates[to.sitelist[s]] == n, "the value sent is the neighbour's");
            }
            for (int x : slot) v::ensure(x == 1, "every slot is used");
            // what a message of one parity or of all sites contains
            auto &to = l.nn_comminfo[d].to_node;
            for (Parity p : {EVEN, ODD, ALL}) {
                const unsigned ns = p == ALL ? from.sites : p == EVEN ? from.evensites : from.oddsites;
                const unsigned nt = p == ALL ? to.sites : p == EVEN ? to.evensites : to.oddsites;
                v::ensure((unsigned)from.n_sites(p) == ns && (unsigned)to.n_sites(p) == nt, "number of sites");
                v::ensure((size_t)from.offset(p) == from.buffer + (p == ODD ? from.evensites : 0), "place in the buffer");
                if (to.sites == 0) continue;
                int n = -1;
                v::ensure(to.get_sitelist(p, n) == to.sitelist + (p == ODD ? to.evensites : 0) && (unsigned)n == nt, "list of the parity");
                for (unsigned k = 0; k < nt; k++) v::ensure(to.site_index(k, p) == to.sitelist[k + (p == ODD ? to.evensites : 0)], "site of the parity");
            }
            if (from.sites == 0) v::ensure(from.rank == (unsigned)r, "no message");
#ifdef SPECIAL_BOUNDARY_CONDITIONS
            const unsigned *p = l.get_neighbour_array((Direction)d, hila::bc::ANTIPERIODIC);
            v::ensure(l.get_neighbour_array((Direction)d, hila::bc::PERIODIC) == l.neighb[d], "ordinary neighbours");
            auto &b = l.special_boundaries[d];
            unsigned k = 0;
            for (size_t i = 0; i < vol; i++) {
                const CoordinateVector c = l.mynode.coordinates[i];
                const int a = World::axis(d);
                if (b.is_needed && c[a] == (d < NDIM ? w.size[a] - 1 : 0)) {
                    v::ensure(p[i] == b.offset + k && b.move_index[k] == l.neighb[d][i], "copied neighbour");
                    v::ensure((k < b.n_even) == (par(c) == 0), "even sites first");
                    k++;
                } else v::ensure(p[i] == l.neighb[d][i], "ordinary neighbour");
            }
#endif
        }
    }
}
#define W(n) PROOF(n, "") { small_world(); }
W(std_gathers_0) W(std_gathers_1) W(std_gathers_2) W(std_gathers_3) W(std_gathers_4) W(std_gathers_5) W(std_gathers_6) W(std_gathers_7)
W(special_init_0) W(special_init_1) W(special_init_2) W(special_init_3) W(special_init_4) W(special_init_5) W(special_init_6) W(special_init_7)
W(special_array_0) W(special_array_1) W(special_array_2) W(special_array_3) W(special_array_4) W(special_array_5) W(special_array_6) W(special_array_7)
W(slot_order_0) W(slot_order_1) W(slot_order_2) W(slot_order_3) W(slot_order_4) W(slot_order_5) W(slot_order_6) W(slot_order_7)
W(wait_arrays) W(accessors) W(step)
#endif
