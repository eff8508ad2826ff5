// C12: link updates. The new link is a group element times the old one, overrelaxation keeps the action.
#include "hila.h"
#include "verif.h"
using namespace v;
#include "spec.h"
#include "plumbing/shuffle.h"
#include "gauge/sun_overrelax.h"
#include "gauge/sun_heatbath.h"
#include "gauge/KennedyPendleton.h"
#include "gauge/sun_max_staple_sum_rot.h"
using Q = SU2<double>;
template <int n> mx<n, n> dag(const mx<n, n> &x) { return con(tr(x)); }
template <int n> cx trc(const mx<n, n> &x) { cx t; for (int i = 0; i < n; i++) t = add(t, x(i, i)); return t; }
template <int n> double retr(const mx<n, n> &u, const mx<n, n> &s) { return trc(mul(u, dag(s))).re; }
static double nrm(const Q &u) { return u.a * u.a + u.b * u.b + u.c * u.c + u.d * u.d; }
static mx<2, 2> M(const Q &u) { mx<2, 2> r; r(0, 0) = {u.d, u.c}; r(0, 1) = {u.b, u.a}; r(1, 0) = {-u.b, u.a}; r(1, 1) = {u.d, -u.c}; return r; }
// SU(2) part of a 2x2 block, m = proj + rest with Re tr(g rest) = 0 for all g in SU(2)
template <int N> Q part(const mx<N, N> &m, int i, int j) {
    Q q;
    q.d = (m(i, i).re + m(j, j).re) / 2;
    q.c = (m(i, i).im - m(j, j).im) / 2;
    q.b = (m(i, j).re - m(j, i).re) / 2;
    q.a = (m(i, j).im + m(j, i).im) / 2;
    return q;
}
static Q unitary(const char *n) {
    double p = any<double>(n), q = any<double>(n), r = any<double>(n); double s = p * p + q * q + r * r;
    Q u; u.a = 2 * p / (1 + s); u.b = 2 * q / (1 + s); u.c = 2 * r / (1 + s); u.d = (1 - s) / (1 + s); return u;
}
template <int N> using S = SU<N, double>;


static bool both(bool a, bool b) { return a && b; }
static bool either(bool a, bool b) { return a || b; }
#ifdef REPLAY
// a reproducible stream of deviates; kind 1: close to one, 2: close to zero, 3: mixed
static uint64_t stream_seed, stream_pos; static int stream_kind;
static double stream_next() {
    uint64_t x = stream_seed + 0x9e3779b97f4a7c15ull * ++stream_pos; x ^= x >> 30; x *= 0xbf58476d1ce4e5b9ull; x ^= x >> 27; x *= 0x94d049bb133111ebull; x ^= x >> 31;
    double u = (x >> 11) * 0x1p-53;
    return stream_kind == 1 || (stream_kind == 3 && x % 2) ? 1 - 1e-7 * (1 - u) : stream_kind == 2 ? u * 1e-6 : u;
}
static void stream_start() { stream_seed = (uint64_t)v::range("stream", 0, 1 << 30); stream_kind = (int)v::range("stream kind", 0, 3); stream_pos = 0; }
#endif
// uniform deviates, the last six are remembered
static double ring[6]; static int64_t drawn; // number of deviates since the last hit
static int loop_kind; // 0 no rejection loop, 1 Kennedy-Pendleton, 2 Creutz
static int after; static bool several;
namespace hila {
double random() {
#ifdef REPLAY
    double x = stream_next();
#else
    double x = any<double>("rnd"); require(x >= 0); require(x < 1);
#endif
    for (int i = 0; i < 5; i++) ring[i] = ring[i + 1];
    ring[5] = x; drawn++;
#ifndef REPLAY
    if (several && loop_kind && ++after > 4) __v_stop(); // the step ended without a hit: the next one is proved in another instance
#endif
    return x;
}
double gaussrand() { return any<double>("gauss"); }
double gaussrand2(double &o) { o = any<double>("gauss"); return any<double>("gauss"); }
}
static double exp_arg, exp_val; static int tries;
// 1 - a0 of Kennedy and Pendleton for weight exp(al a0), from four deviates
static double kp(double al, const double *e) { double c = cos(2 * M_PI * e[2]); return -(log(1.0 - e[1]) + log(1.0 - e[0]) * c * c) / al; }
static bool kp_ok(double d, const double *e) { return 1 - 0.5 * d > e[3] * e[3]; }
// a0 = 1 - d and a direction uniform on the sphere
static Q hit_element(double d, double e, double f) {
    Q a; a.d = 1 - d; double r2 = fabs(1 - a.d * a.d), r = sqrt(r2); a.c = (2 * e - 1) * r; double rho = sqrt(fabs(r2 - a.c * a.c));
    a.a = rho * cos(2 * M_PI * f); a.b = rho * sin(2 * M_PI * f); return a;
}
#ifndef REPLAY
// assumed contracts of log and exp: order preserving and inverse to each other
STUB(log, "^log$")
extern "C" double stub_log(double x) {
    ensure(x > 0, "argument of log is positive");
    double r = log(x); require(either(x > 1, r <= 0)); require(either(exp_val <= 0, either(x < exp_val, r >= exp_arg))); return r;
}
STUB(exp, "^exp$")
extern "C" double stub_exp(double x) { double r = exp(x); require(r > 0); require(either(x > 0, r <= 1)); exp_arg = x; exp_val = r; return r; }
// ---- the 2x2 subgroup hit (contract of mult_by_2x2_left is proved in matrix.cpp): hits come in pairs, first on the link, then on the action
static int hits, ha, hb; static mx<2, 2> hu; static const void *link_; static bool keep; static double beta_;
static int which; // N > 2: the subgroup step under proof. The others are left with an arbitrary action whatever the branch, so only their direct branch is followed
static double loop_al, loop_d; 
// ghost: the action as the code last saw it change
template <int N> mx<N, N> &ghost() { static mx<N, N> a; return a; }
template <int N> void fresh(S<N> *m) {
    *m = anym<S<N>>("action"); auto B = G(*m); ghost<N>() = B;
    require(nrm(part(B, 0, 1)) > 0); if constexpr (N > 2) { require(nrm(part(B, 0, 2)) > 0); require(nrm(part(B, 1, 2)) > 0); }
}
static bool pending, first_link; static int links;
// the matrix of a subgroup step against the action before the step
template <int N> void step(int p, int q, const mx<2, 2> &u) {
    auto A = ghost<N>(); Q k = part(A, p, q); Q g = part(u, 0, 1);
    same(u, M(g), "subgroup matrix is a quaternion");
    double w = g.d * k.d - g.a * k.a - g.b * k.b - g.c * k.c; // Re tr (u block)/2
    if (keep) { eq(nrm(g), 1, "subgroup matrix is in SU(2)"); eq(w, k.d, "overrelaxation keeps the action"); return; }
    Q v; v.d = A(p, p).re + A(q, q).re; v.c = -(A(p, p).im - A(q, q).im); v.a = -(A(p, q).im + A(q, p).im); v.b = -(A(p, q).re - A(q, p).re); // = 2 k^dagger
    double z = sqrt(nrm(v)), al = beta_ / N * z, d;
    if (loop_kind == 0) { d = kp(al, ring); ensure(drawn == 6, "four deviates for the size and two for the direction"); ensure(kp_ok(d, ring), "accepted by the rejection step"); }
    else { eq(loop_al, al, "weight of the heatbath"); d = loop_d; }
    ensure(both(0 <= d, d <= 2), "a0 is between -1 and 1");
    Q a = hit_element(d, ring[4], ring[5]); // of unit norm: proof unit_hit
    same(mul(u, dag(M(v))), scale(M(a), {z, 0}), "new subgroup element has the drawn a0 and direction"); // u = a v/z
}
template <int N> void hit(S<N> *m, int p, int q, const mx<2, 2> &u) {
    bool link = m == link_, look = keep || hits >= which; if (link) links++;
    if (look) ensure((0 <= p) & (p < q) & (q < N), "rows of the subgroup");
    if (!link && look) same(G(*m), ghost<N>(), "the action is not changed otherwise");
    if (!pending) { if (look) step<N>(p, q, u); ha = p; hb = q; hu = u; first_link = link; pending = true; return; }
    // second half of the step
    ensure(link != first_link, "link and action are hit in turn");
    if (look) { ensure((ha == p) & (hb == q), "link and action are hit in the same rows"); same(u, hu, "link and action are hit with the same matrix"); }
    if (!keep && N > 2 && hits == which) __v_stop();
    if (N > 2 && !link) fresh<N>(m);
    pending = false; hits++; drawn = 0; loop_kind = 0;
}
// contract of U * S^dagger (proved in matrix.cpp): the result is any matrix, once the operands are those of the action
static mx<3, 3> s3; static mx<2, 2> s2; static int products;
STUB(mul2, "SU<2, .*operator\\*<SU<2, double>, 0>\\(")
extern "C" void stub_mul2(S<2> *r, const S<2> *a, const S<2> &b) { ensure(a == link_, "action: link"); same(G(b), s2, "action: staple"); fresh<2>(r); products++; }
STUB(mul3, "SU<3, .*operator\\*<SU<3, double>, 0>\\(")
extern "C" void stub_mul3(S<3> *r, const S<3> *a, const S<3> &b) { ensure(a == link_, "action: link"); same(G(b), s3, "action: staple"); fresh<3>(r); products++; }
static void deviates() { for (int i = 0; i < 6; i++) { inv(ring[i] >= 0, "deviates"); inv(ring[i] < 1, "deviates"); }; }
void verif_inv_heatbath_kp(int k, int test, double d, double al) {
    deviates();     inv(0 <= k, "number of tries"); inv(k <= 40, "number of tries"); inv(either(test == 0, test == 1), "accepted or not"); inv(al > 0, "weight is positive");
    inv(either(k == 0, d == kp(al, ring + 2)), "a0 from the last four deviates"); inv(either(test == 0, both(k > 0, kp_ok(d, ring + 2))), "accepted by the rejection step"); inv(d >= 0, "a0 at most 1");
    if (hits != which) __v_stop();
    loop_kind = 1; after = 0; loop_al = al; loop_d = d;
}
static bool ratio(double l, double a) { return either(either(a <= 0, either(l > 0, l < -2 * a)), both(l / a <= 0, l / a >= -2)); } // proof lemma_ratio
void verif_inv_heatbath_creutz(int k, int test, double a0, double al, double xl, double xd) {
    inv(al > 0, "weight is positive"); inv(xl > 0, "range of the deviate"); inv(xl <= 1, "range of the deviate"); inv(xd == 1 - xl, "range of the deviate"); deviates();
    if (k > 0) require(ratio(log(xl + xd * ring[4]), al));
    inv(0 <= k, "number of tries"); inv(k <= 40, "number of tries"); inv(either(test == 0, test == 1), "accepted or not");
    inv(either(k == 0, a0 == 1 + log(xl + xd * ring[4]) / al), "a0 from the last two deviates"); inv(either(k == 0, both(-1 <= a0, a0 <= 1)), "a0 is between -1 and 1"); inv(either(test == 0, both(k > 0, 1 - a0 * a0 > ring[5] * ring[5])), "accepted by the rejection step");
    if (hits != which) __v_stop();
    loop_kind = 2; after = 0; loop_al = al; loop_d = 1 - a0;
}
STUB(hit2, "void Matrix_t<2, 2, .*::mult_by_2x2_left<")
extern "C" void stub_hit2(S<2> *m, int p, int q, const S<2> &u) { hit<2>(m, p, q, G(u)); }
STUB(hit3, "void Matrix_t<3, 3, .*::mult_by_2x2_left<")
extern "C" void stub_hit3(S<3> *m, int p, int q, const S<2> &u) { hit<3>(m, p, q, G(u)); }
template <int N> void subgroups(bool relax, int step = 0) {
    which = step; several = N > 2; after = 0;
    S<N> U = anym<S<N>>("u"), St = anym<S<N>>("s"); if constexpr (N == 2) s2 = dag(G(St)); else s3 = dag(G(St));
    for (double &x : ring) x = 0;
    products = 0; hits = 0; links = 0; pending = false; drawn = 0; loop_kind = 0; exp_val = 0; link_ = &U; keep = relax;
    if (relax) suN_overrelax(U, St);
    else { beta_ = any<double>("beta"); require(beta_ > 0); suN_heatbath(U, St, beta_); }
    ensure(products == 1, "the action is computed once");
    if (relax) ensure(links == N * (N - 1) / 2, "every subgroup is hit once"); ensure(!pending || first_link, "action and link go together");
    cover("end");
}
#define HITS "stubs=hit2+hit3+mul2+mul3"
#define BATH "stubs=hit2+hit3+mul2+mul3+log+exp linfeas near=2 merge=false budget=500"
PROOF(lemma_ratio, "") { ensure(ratio(any<double>("l"), any<double>("a")), "quotient of a number between -2a and 0 by a"); cover("end"); }
PROOF(unit_hit, "") {
    double d = any<double>("d"), e = any<double>("e"), f = any<double>("f"); require(0 <= d && d <= 2 && 0 <= e && e < 1);
    double x = 1 - d, r2 = 1 - x * x, c2 = (2 * e - 1) * (2 * e - 1); ensure(r2 >= 0, "radius"); ensure(c2 <= 1, "third component"); ensure(r2 - c2 * r2 >= 0, "transverse part");
    eq(nrm(hit_element(d, e, f)), 1, "hit element is in SU(2)"); cover("end");
}
#else
template <int N> void subgroups(bool relax, int step = 0);
#define HITS ""
#define BATH ""
#endif
template <int N> void relax() {
    S<N> U = anym<S<N>>("u"), St = anym<S<N>>("s"); auto u = G(U), s = G(St); mx<N, N> A = mul(u, dag(s)); double w = retr(u, s);
    for (int i = 0; i < N - 1; i++) for (int j = i + 1; j < N; j++) require(nrm(part(A, i, j)) > 0);
    suN_overrelax(U, St); auto x = G(U);
    same(mul(dag(x), x), mul(dag(u), u), "the link stays unitary"); same(det(x), det(u), "the determinant is kept");
    eq(retr(x, s), w, "overrelaxation keeps the action"); is(St, s, "the staple is not changed"); cover("end");
}
#ifdef REPLAY
// the documented algorithm on plain numbers, from the same deviates
template <int N> mx<N, N> embed(const mx<2, 2> &u, int p, int q) { mx<N, N> e = unit<N>(); e(p, p) = u(0, 0); e(p, q) = u(0, 1); e(q, p) = u(1, 0); e(q, q) = u(1, 1); return e; }
template <int N> mx<N, N> reference(mx<N, N> U, const mx<N, N> &St, double beta) {
    mx<N, N> A = mul(U, dag(St));
    for (int p = 0; p < N - 1; p++) for (int q = p + 1; q < N; q++) {
        Q k = part(A, p, q); double n = sqrt(nrm(k)), al = 2 * beta / N * n, e[4], d; bool ok = false;
        for (double &x : e) x = hila::random();
        d = kp(al, e); ok = kp_ok(d, e);
        if (!ok && al > 2) for (int i = 0; i < 40 && !ok; i++) { for (double &x : e) x = hila::random(); d = kp(al, e); ok = kp_ok(d, e); if (i == 39 && !ok) d = -1; }
        else if (!ok) for (int i = 0; i < 40 && !ok; i++) { e[0] = hila::random(); e[1] = hila::random(); double x = exp(-2 * al), a0 = 1 + log(x + (1 - x) * e[0]) / al; d = 1 - a0; ok = 1 - a0 * a0 > e[1] * e[1]; }
        if (d < 0 && !ok) continue;
        double r = hila::random(), f = hila::random(); Q a = hit_element(d, r, f); Q kd = k; kd.a /= -n; kd.b /= -n; kd.c /= -n; kd.d /= n;
        mx<N, N> h = embed<N>(mul(M(a), M(kd)), p, q); U = mul(h, U); A = mul(h, A);
    }
    return U;
}
template <int N> void subgroups(bool over, int) {
    if (over) { relax<N>(); return; }
    stream_start(); S<N> U = anym<S<N>>("u"), St = anym<S<N>>("s"); auto u = G(U); mx<N, N> A = mul(u, dag(G(St)));
    for (int i = 0; i < N - 1; i++) for (int j = i + 1; j < N; j++) require(nrm(part(A, i, j)) > 1e-3);
    double beta = fabs(any<double>("beta")) * (range("strong", 0, 1) ? 4 : 0.2); require(beta > 1e-3);
    suN_heatbath(U, St, beta); auto x = G(U);
    same(mul(dag(x), x), mul(dag(u), u), "the link stays unitary"); same(det(x), det(u), "the determinant is kept");
    stream_pos = 0; same(x, reference<N>(u, G(St), beta), "heat bath element from the drawn deviates");
}
#endif
PROOF(overrelax2, "") { relax<2>(); }
PROOF(overrelax_hits2, HITS) { subgroups<2>(true); }
PROOF(overrelax_hits3, HITS) { subgroups<3>(true); }
PROOF(heatbath_hits2, BATH) { subgroups<2>(false); }
PROOF(heatbath_hits3a, BATH " tier=thorough") { subgroups<3>(false, 0); }
PROOF(heatbath_hits3b, BATH " tier=thorough") { subgroups<3>(false, 1); }
PROOF(heatbath_hits3c, BATH) { subgroups<3>(false, 2); }
// Kennedy-Pendleton for SU2 type: U = -a V, V = S / |S|
#ifndef REPLAY
void verif_inv_su2_kp(int nloops) { inv(0 <= nloops, "number of tries"); inv(nloops < 100, "number of tries"); for (int i = 0; i < 6; i++) { inv(ring[i] >= 0, "deviates"); inv(ring[i] < 1, "deviates"); } tries = nloops; }
#endif
static double su2_delta(double alpha) { return kp(alpha, ring); }
PROOF(su2_heatbath, "stubs=log linfeas near=2 merge=false budget=200") {
    Q s; s.a = any<double>("s"); s.b = any<double>("s"); s.c = any<double>("s"); s.d = any<double>("s"); require(nrm(s) > 0); Q s0 = s;
    for (double &x : ring) x = 0;
#ifdef REPLAY
    stream_start(); require(nrm(s) > 1e-3);
#endif
    exp_val = 0; Q u = KennedyPendleton(s); double n = sqrt(nrm(s0));
    double d = su2_delta(2 * n); bool last = tries == 99;
#ifdef REPLAY
    last = stream_pos > 400;
#endif
    double a0 = 1 - d;
    if (last) a0 = 1e-9; else { ensure(!(ring[3] * ring[3] > 1.0 - 0.5 * d), "accepted by the rejection step"); ensure(d >= 0, "a0 is at most 1"); ensure(d <= 2, "a0 is at least -1"); }
    double rd = 1 - a0 * a0; ensure(rd >= 0, "a0 is between -1 and 1"); if (rd <= 0) rd = 0;
    eq(u.d * s0.d + u.a * s0.a + u.b * s0.b + u.c * s0.c, -a0 * n, "projection on the staple");
    eq(nrm(u), a0 * a0 + rd, "the new link is in SU(2)"); same(M(s), M(s0), "staple unchanged"); cover("end");
}
// an SU(2) hit keeps the link in SU(N)
template <int N> void su2_hit() {
    S<N> U = anym<S<N>>("u"); auto u = G(U); Q h = unitary("h"); SU<2, double> g; g = h.convert_to_2x2_matrix();
    int p = (int)range("p", 0, N - 2), q = (int)range("q", 1, N - 1); require(p < q);
    U.mult_by_2x2_left(p, q, g); auto x = G(U);
    same(mul(dag(x), x), mul(dag(u), u), "the link stays unitary"); same(det(x), det(u), "the determinant is kept"); cover("end");
}
PROOF(su2_hit2, "") { su2_hit<2>(); }
PROOF(su2_hit3, "") { su2_hit<3>(); }
// N = 2: the staple sum has a unique closest group element, overrelaxation reflects the link about it
static Q quat(const char *n) { Q q; q.a = any<double>(n); q.b = any<double>(n); q.c = any<double>(n); q.d = any<double>(n); return q; }
#ifdef REPLAY
#define START stream_start()
#else
#define START
#endif
PROOF(max_staple2, "") {
    START; S<2> St = anym<S<2>>("s"); auto s = G(St); Q k = part(s, 0, 1); double n = nrm(k); require(n > 1e-6);
    S<2> T = suN_max_staple_sum_rot(St); auto t = G(T);
    same(mul(t, dag(t)), unit<2>(), "maximizer is unitary"); same(det(t), {1, 0}, "maximizer has determinant 1");
    eq(trc(mul(t, s)).re, 2 * sqrt(n), "maximal overlap"); // |Re tr(g s)| <= 2 |part(s)| for every g in SU(2)
    is(St, s, "staple unchanged"); cover("end");
}
PROOF(overrelax_sum2, "") {
    START; S<2> St = anym<S<2>>("s"), U; auto s = G(St); Q k = part(s, 0, 1), g = quat("u"); require(nrm(k) > 1e-6);
    for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) { U.e(i, j).re = M(g)(i, j).re; U.e(i, j).im = M(g)(i, j).im; }
    auto u = G(U); double w = retr(u, s); int r = suN_overrelax(U, St, any<double>("beta")); auto x = G(U);
    ensure(r == 1, "accepted"); same(mul(dag(x), x), mul(dag(u), u), "the link stays unitary"); same(det(x), det(u), "the determinant is kept"); eq(retr(x, s), w, "overrelaxation keeps the action"); is(St, s, "staple unchanged"); cover("end");
}
template <int n> void shuffled() {
    START; std::array<int, n> a; for (int i = 0; i < n; i++) a[i] = i;
    hila::shuffle(a); int seen = 0;
    for (int i = 0; i < n; i++) { ensure((a[i] >= 0) & (a[i] < n), "element of the array"); for (int j = 0; j < i; j++) ensure(a[i] != a[j], "no element twice"); }
    cover("end");
}
PROOF(shuffle2, "") { shuffled<2>(); }
PROOF(shuffle4, "") { shuffled<4>(); }
PROOF(shuffle_vector, "") { START; std::vector<int> v(3); for (int i = 0; i < 3; i++) v[i] = i; hila::shuffle(v); for (int i = 0; i < 3; i++) { ensure((v[i] >= 0) & (v[i] < 3), "element of the vector"); for (int j = 0; j < i; j++) ensure(v[i] != v[j], "no element twice"); } cover("end"); }
