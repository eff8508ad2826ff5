// Matrix / Vector algebra against plain index formulas.
#include "hila.h"
#include "verif.h"
using namespace v;
#include "spec.h"
template <typename T> using number = std::conditional_t<hila::is_complex<T>::value, Complex<double>, double>;

template <int n, int m, int l, typename T, typename S> void products() {
    auto A = anym<Matrix<n, m, T>>("A"); auto B = anym<Matrix<m, l, S>>("B"); auto a = G(A); auto b = G(B);
    auto ab = mul(a, b);
    if constexpr (n == 1 && l == 1) { auto r = A * B; same(C(r), ab(0, 0), "A*B"); }
    else is(A * B, ab, "A*B");
    if constexpr (std::is_same_v<T, S>) {
        Matrix<n, l, T> R; mult(A, B, R); is(R, ab, "mult");
        Matrix<n, l, T> R0 = anym<Matrix<n, l, T>>("R"); auto r0 = G(R0);
        R = R0; mult_add(A, B, R); is(R, add(r0, ab), "mult_add");
        R = R0; mult_sub(A, B, R); is(R, sub(r0, ab), "mult_sub");
    }
    is(A, a, "operand unchanged"); is(B, b, "operand unchanged");
    cover("end");
}
using Cd = Complex<double>;
using Cf = Complex<float>;
PROOF(prod_222c, "") { products<2, 2, 2, Cd, Cd>(); }
PROOF(prod_333c, "") { products<3, 3, 3, Cd, Cd>(); }
PROOF(prod_444r, "") { products<4, 4, 4, double, double>(); }
PROOF(prod_444c, "tier=thorough") { products<4, 4, 4, Cd, Cd>(); }
PROOF(prod_234c, "") { products<2, 3, 4, Cd, Cd>(); }
PROOF(prod_423r, "") { products<4, 2, 3, double, double>(); }
PROOF(prod_331c, "") { products<3, 3, 1, Cd, Cd>(); }
PROOF(prod_133c, "") { products<1, 3, 3, Cd, Cd>(); }
PROOF(prod_313c, "") { products<3, 1, 3, Cd, Cd>(); }
PROOF(prod_131c, "") { products<1, 3, 1, Cd, Cd>(); }
PROOF(prod_mixed, "") { products<2, 3, 2, Cd, double>(); products<2, 3, 2, double, Cd>(); products<2, 2, 2, float, double>(); products<3, 3, 3, Cf, Cf>(); }
PROOF(prod_131m, "") { products<1, 3, 1, double, Cd>(); products<1, 2, 1, Cd, double>(); }
PROOF(prod_int, "mode=int") {
    auto A = anym<Matrix<2, 3, double>>("A"); Matrix<3, 2, int> B; for (int i = 0; i < 6; i++) B.e(i / 2, i % 2) = (int)range("B", -1000, 1000);
    mx<3, 2> b; for (int i = 0; i < 3; i++) for (int j = 0; j < 2; j++) b(i, j).re = B.e(i, j);
    is(A * B, mul(G(A), b), "real*int");
    cover("end");
}

template <int n, int m, typename T, typename X = double> void linear() {
    using M = Matrix<n, m, T>;
    auto A = anym<M>("A"), B = anym<M>("B"); auto a = G(A), b = G(B); T s = anyn<T>("s"); X r = any<X>("r");
    is(A + B, add(a, b), "A+B"); is(A - B, sub(a, b), "A-B"); is(-A, sub(mx<n, m>(), a), "-A"); is(+A, a, "+A");
    is(A * s, scale(a, C(s)), "A*s"); is(s * A, scale(a, C(s)), "s*A"); is(A * r, scale(a, C(r)), "A*r"); is(r * A, scale(a, C(r)), "r*A");
    M t = A; t += B; is(t, add(a, b), "A+=B"); t = A; t -= B; is(t, sub(a, b), "A-=B");
    t = A; t *= s; is(t, scale(a, C(s)), "A*=s"); t = A; t *= r; is(t, scale(a, C(r)), "A*=r");
    t = A; t += t; is(t, add(a, a), "A+=A"); t = A; t -= t; is(t, mx<n, m>(), "A-=A");
    t = nullptr; is(t, mx<n, m>(), "=zero"); t = B; is(t, b, "=B"); M u(A); is(u, a, "copy"); M z(nullptr); is(z, mx<n, m>(), "zero");
    t = A; t.fill(s); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(C(t.e(i, j)), C(s), "fill");
    t = B; mult(A, s, t); is(t, scale(a, C(s)), "mult scalar"); mult(s, A, t); is(t, scale(a, C(s)), "mult scalar");
    t = B; mult_add(A, s, t); is(t, add(b, scale(a, C(s))), "mult_add scalar"); t = B; mult_add(s, A, t); is(t, add(b, scale(a, C(s))), "mult_add scalar");
    t = B; mult_sub(A, s, t); is(t, sub(b, scale(a, C(s))), "mult_sub scalar"); t = B; mult_sub(s, A, t); is(t, sub(b, scale(a, C(s))), "mult_sub scalar");
    bool e = true; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) e = e & (a(i, j).re == b(i, j).re) & (a(i, j).im == b(i, j).im);
    ensure((A == B) == e, "=="); ensure((A != B) == !e, "!=");
    if (r != 0) { mx<n, m> q; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) q(i, j) = dvd(a(i, j), C(r)); is(A / r, q, "A/r"); t = A; t /= r; is(t, q, "A/=r"); }
    if (!zero(C(s))) { mx<n, m> q; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) q(i, j) = dvd(a(i, j), C(s)); is(A / s, q, "A/s"); t = A; t /= s; is(t, q, "A/=s"); }
    is(A, a, "operand unchanged"); is(B, b, "operand unchanged");
    cover("end");
}
PROOF(lin_22c, "") { linear<2, 2, Cd>(); }
PROOF(lin_33c, "") { linear<3, 3, Cd>(); }
PROOF(lin_22i, "") { linear<2, 2, double, int>(); }
PROOF(lin_12ci, "") { linear<1, 2, Cd, int>(); }
PROOF(lin_23r, "") { linear<2, 3, double>(); }
PROOF(lin_vec, "") { linear<3, 1, Cd>(); }
PROOF(lin_row, "") { linear<1, 3, double>(); }
PROOF(lin_22f, "") { linear<2, 2, float>(); }
PROOF(lin_44c, "tier=thorough") { linear<4, 4, Cd>(); }

template <int n, int m, typename T> void structure() {
    using M = Matrix<n, m, T>;
    auto A = anym<M>("A"); auto a = G(A);
    is(A.transpose(), tr(a), "transpose"); is(A.dagger(), con(tr(a)), "dagger"); is(A.adjoint(), con(tr(a)), "adjoint"); is(A.conj(), con(a), "conj");
    is(transpose(A), tr(a), "transpose"); is(dagger(A), con(tr(a)), "dagger"); is(adjoint(A), con(tr(a)), "adjoint"); is(conj(A), con(a), "conj");
    mx<n, m> re, im; double sq = 0; cx s;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { re(i, j).re = a(i, j).re; im(i, j).re = a(i, j).im; sq += n2(a(i, j)); s = add(s, a(i, j)); }
    is(A.real(), re, "real"); is(A.imag(), im, "imag"); is(real(A), re, "real"); is(imag(A), im, "imag");
    eq(A.squarenorm(), sq, "squarenorm"); eq(squarenorm(A), sq, "squarenorm");
    double nn = A.norm(); eq(nn * nn, sq, "norm^2"); ensure(nn >= 0, "norm>=0");
    same(C(A.sum()), s, "sum");
    static_assert(M::rows() == n && M::columns() == m, "shape");
    for (int i = 0; i < n; i++) { auto r = A.row(i); for (int j = 0; j < m; j++) same(C(r.e(j)), a(i, j), "row"); }
    for (int j = 0; j < m; j++) { auto c = A.column(j); for (int i = 0; i < n; i++) same(C(c.e(i)), a(i, j), "column"); }
    for (int k = 0; k < n; k++) { M t = A; auto v = anym<Matrix<1, m, T>>("row"); t.set_row(k, v); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(C(t.e(i, j)), i == k ? C(v.e(j)) : a(i, j), "set_row"); }
    for (int k = 0; k < m; k++) { M t = A; auto v = anym<Matrix<n, 1, T>>("col"); t.set_column(k, v); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(C(t.e(i, j)), j == k ? C(v.e(i)) : a(i, j), "set_column"); }
    auto B = anym<Matrix<m, n, T>>("B"); cx tt; auto b = G(B);
    for (int i = 0; i < n; i++) for (int k = 0; k < m; k++) tt = add(tt, mul(a(i, k), b(k, i)));
    same(C(A.mul_trace(B)), tt, "mul_trace"); same(C(mul_trace(A, B)), tt, "mul_trace");
    { auto D = anym<M>("D"); auto d = G(D); mx<n, m> e; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) e(i, j) = mul(a(i, j), d(i, j)); is(A.element_mul(D), e, "element_mul"); }
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { M t = A; T x = anyn<T>("x"); t.e(i, j) = x; for (int p = 0; p < n; p++) for (int q = 0; q < m; q++) same(C(t.e(p, q)), (p == i && q == j) ? C(x) : a(p, q), "element store"); }
    is(A, a, "operand unchanged");
    cover("end");
}
PROOF(str_22c, "") { structure<2, 2, Cd>(); }
PROOF(str_23c, "") { structure<2, 3, Cd>(); }
PROOF(str_32r, "") { structure<3, 2, double>(); }
PROOF(str_33c, "") { structure<3, 3, Cd>(); }
PROOF(str_22f, "") { structure<2, 2, Cf>(); }
PROOF(str_44c, "tier=thorough") { structure<4, 4, Cd>(); }

template <int n, typename T, typename X = double> void square() {
    using M = SquareMatrix<n, T>;
    auto A = anym<M>("A"), B = anym<M>("B"); auto a = G(A), b = G(B); T s = anyn<T>("s"); X r = any<X>("r");
    cx t; for (int i = 0; i < n; i++) t = add(t, a(i, i));
    same(C(A.trace()), t, "trace"); same(C(trace(A)), t, "trace");
    auto sI = scale(unit<n>(), C(s)), rI = scale(unit<n>(), C(r));
    M m; m = s; is(m, sI, "=scalar"); M m2(s); is(m2, sI, "M(scalar)"); m = A; m = r; is(m, rI, "=real"); m = 1; is(m, unit<n>(), "=1");
    is(A + s, add(a, sI), "A+s"); is(s + A, add(a, sI), "s+A"); is(A - s, sub(a, sI), "A-s"); is(s - A, sub(sI, a), "s-A");
    is(A + r, add(a, rI), "A+r"); is(r - A, sub(rI, a), "r-A");
    m = A; m += s; is(m, add(a, sI), "A+=s"); m = A; m -= s; is(m, sub(a, sI), "A-=s"); m = A; m -= r; is(m, sub(a, rI), "A-=r");
    m = A; m *= B; is(m, mul(a, b), "A*=B"); m = A; m *= m; is(m, mul(a, a), "A*=A");
    auto d = A.diagonal(); for (int i = 0; i < n; i++) same(C(d.e(i)), a(i, i), "diagonal");
    { M q = A; auto v = anym<Matrix<n, 1, T>>("v"); q.set_diagonal(v); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) same(C(q.e(i, j)), i == j ? C(v.e(i)) : a(i, j), "set_diagonal"); }
    { auto D = anym<Matrix<n, 1, T>>("D"); DiagonalMatrix<n, T> dm; mx<n, n> dd; for (int i = 0; i < n; i++) { dm.e(i) = D.e(i); dd(i, i) = C(D.e(i)); }
      M q = A; q += dm; is(q, add(a, dd), "A+=diag"); q = A; q -= dm; is(q, sub(a, dd), "A-=diag"); q = A; q *= dm; is(q, mul(a, dd), "A*=diag"); q = A; q = dm; is(q, dd, "A=diag");
      is(A * dm, mul(a, dd), "A*diag"); is(dm * A, mul(dd, a), "diag*A"); is(A + dm, add(a, dd), "A+diag"); is(A - dm, sub(a, dd), "A-diag"); is(dm - A, sub(dd, a), "diag-A"); is(dm + A, add(a, dd), "diag+A"); }
    is(A, a, "operand unchanged");
    cover("end");
}
PROOF(sq_2i, "") { square<2, double, int>(); }
PROOF(sq_2ci, "") { square<2, Cd, int>(); }
PROOF(sq_2c, "") { square<2, Cd>(); }
PROOF(sq_3c, "") { square<3, Cd>(); }
PROOF(sq_3r, "") { square<3, double>(); }
PROOF(sq_4r, "tier=thorough") { square<4, double>(); }

template <int n, int m, typename T> void vectors() {
    auto A = anym<Vector<n, T>>("A"), B = anym<Vector<n, T>>("B"); auto a = G(A), b = G(B);
    cx d; for (int i = 0; i < n; i++) d = add(d, mul(con(a(i, 0)), b(i, 0)));
    same(C(A.dot(B)), d, "dot");
    auto D = anym<Vector<m, T>>("D"); auto dd = G(D);
    auto O = A.outer_product(D); for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(C(O.e(i, j)), mul(a(i, 0), con(dd(j, 0))), "outer_product");
    for (int i = 0; i < n; i++) { same(C(A[i]), a(i, 0), "[]"); same(C(A.e(i)), a(i, 0), "e"); Vector<n, T> t = A; T x = anyn<T>("x"); t[i] = x; for (int j = 0; j < n; j++) same(C(t.e(j)), i == j ? C(x) : a(j, 0), "[]="); }
    auto R = A.dagger(); for (int i = 0; i < n; i++) same(C(R[i]), con(a(i, 0)), "dagger");
    cover("end");
}
PROOF(vec_c, "") { vectors<3, 2, Cd>(); }
PROOF(vec_r, "") { vectors<4, 3, double>(); }

PROOF(power, "") {
    auto A = anym<SquareMatrix<2, double>>("A"); auto a = G(A); auto p = unit<2>();
    for (int k = 0; k <= 9; k++) { is(pow(A, k), p, "pow"); p = mul(p, a); }
    auto B = anym<SquareMatrix<2, Cd>>("B"); auto b = G(B); p = unit<2>();
    for (int k = 0; k <= 3; k++) { is(pow(B, k), p, "pow"); p = mul(p, b); }
    cover("end");
}
template <int n, typename T, int kmax> void taylor() {
    auto A = anym<SquareMatrix<n, T>>("A"); auto a = G(A);
    auto s = unit<n>(), t = unit<n>();
    for (int k = 0; k <= kmax; k++) {
        if (k) { t = scale(mul(t, a), {1.0 / k, 0}); s = add(s, t); }
        is(exp(A, k), s, "exp to order k");
    }
    cover("end");
}
PROOF(exp_taylor, "") { taylor<2, double, 6>(); taylor<2, Cd, 3>(); taylor<3, double, 3>(); }
PROOF(exp_default, "") { // default order, upper triangular Jordan block
    SquareMatrix<2, double> A = 0; double x = any<double>("x"), y = any<double>("y"); A.e(0, 0) = x; A.e(1, 1) = x; A.e(0, 1) = y;
    double s = 1, d = 0, t = 1, f = 1;
    for (int k = 1; k <= 20; k++) { d += t / f; t *= x; f *= k; s += t / f; }
    auto E = exp(A); eq(E.e(0, 0), s, "exp default"); eq(E.e(1, 1), s, "exp default"); eq(E.e(1, 0), 0, "exp default"); eq(E.e(0, 1), d * y, "exp default");
    cover("end");
}
PROOF(exp_derivative, "") { // mult_exp: r = mmat*exp(mat), dr = d/dt exp(mat + t mmat) contribution, to order k
    auto A = anym<SquareMatrix<2, double>>("A"), B = anym<SquareMatrix<2, double>>("B"); auto a = G(A), b = G(B);
    const int K = 3;
    SquareMatrix<2, double> R, D; mult_exp(A, B, R, D, K);
    auto s = unit<2>(), t = unit<2>(); for (int k = 1; k <= K; k++) { t = scale(mul(t, a), {1.0 / k, 0}); s = add(s, t); }
    is(R, mul(b, s), "mult_exp value");
    // derivative of sum_{k<=K} A^k/k! in direction B, cyclically ordered: sum_k 1/k! sum_{p+q=k-1} A^p B A^q
    mx<2, 2> d; mx<2, 2> pw[K + 1]; pw[0] = unit<2>(); for (int k = 1; k <= K; k++) pw[k] = mul(pw[k - 1], a);
    double f = 1; for (int k = 1; k <= K; k++) { f *= k; for (int p = 0; p < k; p++) d = add(d, scale(mul(mul(pw[p], b), pw[k - 1 - p]), {1 / f, 0})); }
    is(D, d, "mult_exp derivative");
    cover("end");
}
PROOF(aliasing, "") {
    auto A = anym<SquareMatrix<2, Cd>>("A"); auto a = G(A); auto t = A;
    t = A; t *= t.e(0, 0); is(t, scale(a, a(0, 0)), "M*=M(0,0)");
    t = A; t += t.e(0, 0); is(t, add(a, scale(unit<2>(), a(0, 0))), "M+=M(0,0)");
    t = A; t -= t.e(0, 0); is(t, sub(a, scale(unit<2>(), a(0, 0))), "M-=M(0,0)");
    if (!zero(a(0, 0))) { mx<2, 2> q; for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) q(i, j) = dvd(a(i, j), a(0, 0)); t = A; t /= t.e(0, 0); is(t, q, "M/=M(0,0)"); }
    cover("end");
}
// ordering
template <int n> void order() {
    auto A = anym<Vector<n, double>>("A");
    Vector<n, int> p;
    for (int k = 0; k < 2; k++) {
        auto S = k ? A.sort(p, hila::sort::descending) : A.sort(p, hila::sort::ascending);
        for (int i = 0; i + 1 < n; i++) ensure(k ? S[i] >= S[i + 1] : S[i] <= S[i + 1], "sorted");
        for (int i = 0; i < n; i++) { ensure(p[i] >= 0 && p[i] < n, "permutation range"); for (int j = 0; j < i; j++) ensure(p[i] != p[j], "permutation"); eq(S[i], A[p[i]], "sorted = permuted"); }
    }
    auto Q = A.permute(p); for (int i = 0; i < n; i++) eq(Q[i], A[p[i]], "permute");
    cover("end");
}
PROOF(sort2, "") { order<2>(); }
PROOF(sort3, "") { order<3>(); }
template <int n, int m> void extrema() {
    auto A = anym<Matrix<n, m, double>>("A"); double mx = A.max(), mn = A.min(), ma = A.max_abs(), mi = A.min_abs(); bool h1 = false, h2 = false, h3 = false, h4 = false;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) {
        double x = A.e(i, j), y = x < 0 ? -x : x; ensure(x <= mx, "max"); ensure(x >= mn, "min"); ensure(y <= ma, "max_abs"); ensure(y >= mi, "min_abs");
        h1 |= x == mx; h2 |= x == mn; h3 |= y == ma; h4 |= y == mi;
    }
    ensure(h1, "max attained"); ensure(h2, "min attained"); ensure(h3, "max_abs attained"); ensure(h4, "min_abs attained");
    cover("end");
}
PROOF(extrema, "") { extrema<2, 2>(); extrema<3, 1>(); }
PROOF(maxloc, "") {
    auto A = anym<Vector<3, double>>("A"); int k = -1, l = -1; double M = A.max(k), m = A.min(l);
    ensure(k >= 0 && k < 3 && l >= 0 && l < 3, "index range"); ensure(A[k] == M, "max index"); ensure(A[l] == m, "min index");
    for (int i = 0; i < 3; i++) { ensure(A[i] <= M, "max"); ensure(A[i] >= m, "min"); }
    cover("end");
}
template <int n> void permutations() {
    auto A = anym<SquareMatrix<n, double>>("A"); Vector<n, int> p; for (int i = 0; i < n; i++) p[i] = (int)range("p", 0, n - 1);
    auto c = A.permute_columns(p), r = A.permute_rows(p);
    for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { eq(c.e(i, j), A.e(i, p[j]), "permute_columns"); eq(r.e(i, j), A.e(p[i], j), "permute_rows"); }
    cover("end");
}
PROOF(permute2, "") { permutations<2>(); }
PROOF(permute3, "") { permutations<3>(); }
PROOF(block2x2, "") {
    for (int p = 0; p < 3; p++) for (int q = 0; q < 3; q++) if (p != q) {
        auto A = anym<SquareMatrix<3, Cd>>("A"); auto B = anym<SquareMatrix<2, Cd>>("B"); auto a = G(A); auto b = G(B); auto E = unit<3>();
        E(p, p) = b(0, 0); E(p, q) = b(0, 1); E(q, p) = b(1, 0); E(q, q) = b(1, 1);
        auto t = A; t.mult_by_2x2_left(p, q, B); is(t, mul(E, a), "left 2x2"); t = A; t.mult_by_2x2_right(p, q, B); is(t, mul(a, E), "right 2x2");
    }
    cover("end");
}
PROOF(casts, "") {
    auto A = anym<Matrix<2, 3, Cd>>("A"); is(hila::cast_to<float>(A), G(A), "cast"); auto B = anym<Matrix<2, 3, float>>("B"); is(hila::cast_to<double>(B), G(B), "cast");
    Matrix<2, 3, Cd> D = B; is(D, G(B), "convert real to complex"); cover("end");
}
