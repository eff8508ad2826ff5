// SU(N): reunitarization, Lie algebra basis, projection/expansion, conjugation; N = 2,3 (and 4 where stated).
#include "hila.h"
#include "verif.h"
using namespace v;
#include "spec.h"
#include "rnd.h"
template <int n> mx<n, n> dag(const mx<n, n> &x) { return con(tr(x)); }
template <int n> cx trc(const mx<n, n> &x) { cx t; for (int i = 0; i < n; i++) t = add(t, x(i, i)); return t; }
// generator k of su(N) as documented in sun_matrix.h (diagonal ones first)
template <int N> mx<N, N> gen(int k) {
    mx<N, N> g;
    if (k < N - 1) { int q = k + 1; double f = sqrt(2.0 * q * (q + 1)); for (int j = 0; j < q; j++) g(j, j).im = 1 / f; g(q, q).im = -q / f; return g; }
    int m = N - 1;
    for (int i = 0; i < N - 1; i++) for (int j = i + 1; j < N; j++) { if (k == m) { g(i, j).re = 0.5; g(j, i).re = -0.5; } if (k == m + 1) { g(i, j).im = 0.5; g(j, i).im = 0.5; } m += 2; }
    return g;
}
template <int N> mx<N, N> expd(const double *c) { mx<N, N> r; for (int k = 0; k < N * N - 1; k++) r = add(r, scale(gen<N>(k), {c[k], 0})); return r; }
template <int N> void algebra() {
    constexpr int K = N * N - 1; using A = Algebra<SU<N, double>>; using S = SU<N, double>;
    A a; double c[K]; for (int k = 0; k < K; k++) a.e(k) = c[k] = any<double>("a");
    mx<N, N> m = expd<N>(c); auto M = a.expand(); is(M, m, "expand"); double s = any<double>("s"); is(a.expand_scaled(s), scale(m, {s, 0}), "expand_scaled");
    same(dag(G(M)), scale(m, {-1, 0}), "expand: antihermitean"); same(trc(G(M)), cx(), "expand: traceless");
    auto p = M.project_to_algebra(); for (int k = 0; k < K; k++) eq(p.e(k), c[k], "project(expand(a)) = a");
    auto X = anym<S>("x"); auto x = G(X); auto q = X.project_to_algebra(); auto qs = X.project_to_algebra_scaled(s);
    mx<N, N> h = scale(sub(x, dag(x)), {0.5, 0}); cx t = trc(h); for (int i = 0; i < N; i++) h(i, i).im -= t.im / N;
    double qc[K]; for (int k = 0; k < K; k++) { qc[k] = q.e(k); eq(qs.e(k), s * qc[k], "project_to_algebra_scaled"); cx w = trc(mul(dag(gen<N>(k)), x)); eq(qc[k], 2 * w.re, "project_to_algebra: 2 Re tr(g+ x)"); }
    same(expd<N>(qc), h, "project_to_algebra: traceless antihermitean part");
    double on; auto q1 = X.project_to_algebra(on); for (int k = 0; k < K; k++) eq(q1.e(k), qc[k], "project_to_algebra(norm)");
    A b; for (int k = 0; k < K; k++) b.e(k) = any<double>("b"); double d = 0; for (int k = 0; k < K; k++) d += c[k] * b.e(k); eq(a.dot(b), d / 2, "dot");
    is(X, x, "operand unchanged");
    cover("end");
}
PROOF(algebra2, "") { algebra<2>(); }
PROOF(algebra3, "") { algebra<3>(); }
PROOF(algebra4, "") { algebra<4>(); }
PROOF(algebra5, "tier=thorough") { algebra<5>(); }
template <int N> void onenorm() {
    auto X = anym<SU<N, double>>("x"); double on; auto q = X.project_to_algebra(on); double s = 0; for (int k = 0; k < N * N - 1; k++) s += q.e(k) < 0 ? -q.e(k) : q.e(k);
    eq(on, s, "1-norm of the projection"); cover("end");
}
PROOF(onenorm2, "") { onenorm<2>(); }
template <int N> void generators() {
    constexpr int K = N * N - 1; Alg_gen<N, double> g[K]; Algebra<SU<N, double>>::generator_list(g); mx<N, N> r[K];
    for (int k = 0; k < K; k++) { r[k] = gen<N>(k); is(g[k].to_matrix(), r[k], "generator_list"); }
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { cx t = trc(mul(r[i], r[j])); same(t, {i == j ? -0.5 : 0., 0}, "tr(gi gj) = -delta/2"); }
    Alg_gen<N, double> gp[K][K]; Algebra<SU<N, double>>::generator_product_list(gp);
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) is(gp[i][j].to_matrix(), mul(r[i], r[j]), "generator_product_list");
    cover("end");
}
PROOF(gens2, "") { generators<2>(); }
PROOF(gens3, "") { generators<3>(); }
template <int N> void bilinear() {
    constexpr int K = N * N - 1; using M = Matrix<N, N, Complex<double>>; auto W = anym<M>("w"), U = anym<M>("u"); auto w = G(W), u = G(U); Matrix<K, K, double> o; mx<N, N> g[K]; for (int k = 0; k < K; k++) g[k] = gen<N>(k);
    project_to_algebra_bilinear(W, U, o); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) eq(o.e(i, j), 2 * trc(mul(mul(dag(g[i]), w), mul(g[j], u))).re, "2 Re tr(gi+ w gj u)");
    project_to_algebra_bilinear(W, o); for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) eq(o.e(i, j), 2 * trc(mul(mul(dag(g[i]), w), g[j])).re, "2 Re tr(gi+ w gj)");
    cover("end");
}
PROOF(bilinear2, "") { bilinear<2>(); }
PROOF(bilinear3, "") { bilinear<3>(); }
template <int N> void bilinear_tensor() {
    constexpr int K = N * N - 1; using M = Matrix<N, N, Complex<double>>; M w[N][N]; for (int i = 0; i < N; i++) for (int j = 0; j < N; j++) w[i][j] = anym<M>("w"); Matrix<K, K, double> o; 
    project_to_algebra_bilinear(w, o);
    for (int i = 0; i < K; i++) for (int j = 0; j < K; j++) { double r = 0; auto gi = dag(gen<N>(i)), gj = gen<N>(j); for (int k = 0; k < N; k++) for (int l = 0; l < N; l++) r += mul(trc(mul(gi, G(w[k][l]))), gj(k, l)).re; eq(o.e(i, j), 2 * r, "2 Re tr(gi+ w[k][l]) gj[k][l]"); }
    cover("end");
}
PROOF(tensor2, "") { bilinear_tensor<2>(); }
template <int N> void conj_() {
    constexpr int K = N * N - 1; auto U = anym<SU<N, double>>("u"); Algebra<SU<N, double>> a; double c[K]; for (int k = 0; k < K; k++) a.e(k) = c[k] = any<double>("a"); auto u = G(U); auto m = expd<N>(c);
    auto l = left_conjugation(U, a), r = right_conjugation(U, a); auto lm = mul(mul(u, m), dag(u)), rm = mul(mul(dag(u), m), u);
    for (int k = 0; k < K; k++) { auto g = dag(gen<N>(k)); eq(l.e(k), 2 * trc(mul(g, lm)).re, "left_conjugation U E U+"); eq(r.e(k), 2 * trc(mul(g, rm)).re, "right_conjugation U+ E U"); }
    cover("end");
}
PROOF(conj2, "") { conj_<2>(); }
PROOF(conj3, "") { conj_<3>(); }
template <int N> void unitarize() {
    auto X = anym<SU<N, double>>("x"); auto t = X; t.make_unitary(); auto u = G(t);
    same(mul(u, dag(u)), unit<N>(), "make_unitary: U U+ = 1"); cover("end");
}
PROOF(unitary2, "") { unitarize<2>(); }
// N > 2: one Gram-Schmidt step at a time. The steps are separated by the calls of sqrt, where the matrix is made arbitrary;
// the identities of a step give: rows before r orthonormal and the rest orthogonal to them => the same for r + 1.
#ifndef REPLAY
static void *gs_target; static int gs_row; static double gs_norm;
template <int N> mx<N, N> &gs_old() { static mx<N, N> e; return e; }
template <int N> cx dot(const mx<N, N> &x, int i, const mx<N, N> &y, int j) { cx t; for (int k = 0; k < N; k++) t = add(t, mul(con(x(i, k)), y(j, k))); return t; }
template <int N> void gs_step(const mx<N, N> &m, int r) { // row r was normalized and taken out of the rows below
    auto &E = gs_old<N>(); double s = gs_norm;
    for (int i = 0; i < r; i++) for (int k = 0; k < N; k++) same(m(i, k), E(i, k), "make_unitary: finished rows are kept");
    for (int k = 0; k < N; k++) same(mul(m(r, k), {s, 0}), E(r, k), "make_unitary: row keeps its direction");
    same(dot(m, r, m, r), {1, 0}, "make_unitary: row has unit length");
    for (int j = r + 1; j < N; j++) same(dot(m, r, m, j), {0, 0}, "make_unitary: later rows are orthogonal to the row");
    for (int i = 0; i < r; i++) for (int j = r + 1; j < N; j++) same(mul(dot(m, i, m, j), {s, 0}), sub(mul(dot(E, i, E, j), {s, 0}), mul(dot(m, r, E, j), dot(E, i, E, r))), "make_unitary: later rows stay orthogonal to finished rows");
}
template <int N> double gs_sqrt(double x) {
    auto &t = *(SU<N, double> *)gs_target; auto m = G(t); int r = gs_row++; double n = 0; for (int k = 0; k < N; k++) n += n2(m(r, k));
    ensure(r < N, "make_unitary: rows"); eq(x, n, "make_unitary: length of the row");
    if (r > 0) gs_step<N>(m, r - 1);
    t = anym<SU<N, double>>("row"); auto e = G(t); gs_old<N>() = e; n = 0; for (int k = 0; k < N; k++) n += n2(e(r, k));
    require(n > 0); gs_norm = sqrt(n); return gs_norm;
}
STUB(sqrt3, "^sqrt$")
extern "C" double stub_sqrt3(double x) { return gs_sqrt<3>(x); }
STUB(sqrt4, "^sqrt$")
extern "C" double stub_sqrt4(double x) { return gs_sqrt<4>(x); }
template <int N> void gram_schmidt() {
    auto t = anym<SU<N, double>>("x"); gs_target = &t; gs_row = 0; t.make_unitary(); ensure(gs_row == N, "make_unitary: every row is normalized once"); gs_step<N>(G(t), N - 1); cover("end");
}
#else
template <int N> void gram_schmidt() { unitarize<N>(); }
#endif
PROOF(unitary3, "stubs=sqrt3") { gram_schmidt<3>(); }
PROOF(unitary4, "stubs=sqrt4") { gram_schmidt<4>(); }
// first row keeps its direction, later rows only lose components along earlier ones
PROOF(unitary_rows, "") {
    auto X = anym<SU<2, double>>("x"); auto x = G(X); auto t = X; t.make_unitary(); auto u = G(t); double n = sqrt(n2(x(0, 0)) + n2(x(0, 1)));
    for (int i = 0; i < 2; i++) same(scale(mx<1, 1>{{{u(0, i)}}}, {n, 0})(0, 0), x(0, i), "make_unitary: first row direction");
    cover("end");
}
// fix_det multiplies every element by exp(-i arg(det)/N)
template <int N> void fixdet() {
    auto X = anym<SU<N, double>>("x"); auto x = G(X); cx d = det(x); auto t = X; t.fix_det(); double f = atan2(d.im, d.re) / N; is(t, scale(x, {cos(-f), sin(-f)}), "fix_det: common phase"); cover("end");
}
PROOF(fixdet2, "") { fixdet<2>(); }
PROOF(fixdet3, "") { fixdet<3>(); }
PROOF(reunitarize2, "") {
    auto X = anym<SU<2, double>>("x"); auto t = X, u = X; t.reunitarize(); u.make_unitary(); u.fix_det(); is(t, G(u), "reunitarize = make_unitary then fix_det"); auto w = G(t);
    same(mul(w, dag(w)), unit<2>(), "reunitarize: U U+ = 1"); cover("end");
}
PROOF(random2, "") {
    SU<2, double> t; t.random(); auto w = G(t); same(mul(w, dag(w)), unit<2>(), "random: U U+ = 1"); same(det(w), {1, 0}, "random: det = 1"); cover("end");
}
PROOF(algrandom, "") { Algebra<SU<3, double>> a; a.gaussian_random(); auto m = G(a.expand()); same(trc(m), cx(), "random algebra element traceless"); cover("end"); }
