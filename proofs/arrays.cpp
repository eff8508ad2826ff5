// Array and DiagonalMatrix: every operation acts element by element (Array) / as the diagonal matrix it denotes.
#include "hila.h"
#include "verif.h"
using namespace v;
#include "spec.h"
#include "rnd.h"
using Cd = Complex<double>;
using Cf = Complex<float>;
template <int n, int m, typename T> mx<n, m> GA(const Array<n, m, T> &x) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = C(x.e(i, j)); return r; }
template <int n, int m, typename T> Array<n, m, T> anya(const char *l) { Array<n, m, T> x; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) anys(x.e(i, j), l); return x; }
template <int n, int m, typename F> mx<n, m> ew(const mx<n, m> &a, const mx<n, m> &b, F f) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = f(a(i, j), b(i, j)); return r; }
template <int n, int m> mx<n, m> cst(cx s) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = s; return r; }
template <typename M> bool nz(const M &a) { bool r = true; for (auto &q : a.a) for (auto &x : q) r = r & !((x.re == 0) & (x.im == 0)); return r; }
template <int n, int m, typename T, typename S, typename X = T> void array_ops() {
    using A = Array<n, m, T>; auto a_ = anya<n, m, T>("a"); auto b_ = anya<n, m, S>("b"); auto a = GA(a_); auto b = GA(b_); X s = anyn<X>("s"); cx z = C(s); auto sc = cst<n, m>(z);
    auto fa = [](cx x, cx y) { return add(x, y); }; auto fs = [](cx x, cx y) { return sub(x, y); }; auto fm = [](cx x, cx y) { return mul(x, y); }; auto fd = [](cx x, cx y) { return dvd(x, y); };
    same(GA(a_ + b_), ew(a, b, fa), "a+b"); same(GA(a_ - b_), ew(a, b, fs), "a-b"); same(GA(a_ * b_), ew(a, b, fm), "a*b"); same(GA(-a_), ew(mx<n, m>(), a, fs), "-a"); same(GA(+a_), a, "+a");
    same(GA(a_ + s), ew(a, sc, fa), "a+s"); same(GA(s + a_), ew(a, sc, fa), "s+a"); same(GA(a_ - s), ew(a, sc, fs), "a-s"); same(GA(s - a_), ew(sc, a, fs), "s-a"); same(GA(a_ * s), ew(a, sc, fm), "a*s"); same(GA(s * a_), ew(a, sc, fm), "s*a");
    A t = a_; t += b_; same(GA(t), ew(a, b, fa), "+="); t = a_; t -= b_; same(GA(t), ew(a, b, fs), "-="); t = a_; t *= b_; same(GA(t), ew(a, b, fm), "*=");
    t = a_; t += s; same(GA(t), ew(a, sc, fa), "+= s"); t = a_; t -= s; same(GA(t), ew(a, sc, fs), "-= s"); t = a_; t *= s; same(GA(t), ew(a, sc, fm), "*= s"); t = s; same(GA(t), sc, "= s"); A t2(s); same(GA(t2), sc, "Array(s)"); t = b_; same(GA(t), b, "= array"); A z0(nullptr); same(GA(z0), mx<n, m>(), "zero"); t = 0; same(GA(t), mx<n, m>(), "= 0");
    if (nz(b)) { same(GA(a_ / b_), ew(a, b, fd), "a/b"); t = a_; t /= b_; same(GA(t), ew(a, b, fd), "/="); }
    if (!zero(z)) { same(GA(a_ / s), ew(a, sc, fd), "a/s"); t = a_; t /= s; same(GA(t), ew(a, sc, fd), "/= s"); }
    if (nz(a)) same(GA(s / a_), ew(sc, a, fd), "s/a");
    same(GA(a_.conj()), con(a), "conj"); same(GA(conj(a_)), con(a), "conj"); mx<n, m> re, im; double sq = 0; cx su; bool e = true;
    for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) { re(i, j).re = a(i, j).re; im(i, j).re = a(i, j).im; sq += n2(a(i, j)); su = add(su, a(i, j)); e = e & (a(i, j).re == b(i, j).re) & (a(i, j).im == b(i, j).im); }
    same(GA(a_.real()), re, "real"); same(GA(a_.imag()), im, "imag"); same(GA(real(a_)), re, "real"); same(GA(imag(a_)), im, "imag"); eq(a_.squarenorm(), sq, "squarenorm"); eq(squarenorm(a_), sq, "squarenorm"); same(C(a_.sum()), su, "sum");
    ensure((a_ == b_) == e, "=="); ensure((a_ != b_) == !e, "!=");
    { auto M = a_.asMatrix(); is(M, a, "asMatrix"); auto B = M.asArray(); same(GA(B), a, "asArray"); }
    t = a_; t += t; same(GA(t), ew(a, a, fa), "a+=a"); t = a_; t *= t; same(GA(t), ew(a, a, fm), "a*=a"); t = a_; t *= t.e(0, 0); same(GA(t), ew(a, cst<n, m>(a(0, 0)), fm), "a *= a[0]");
    same(GA(a_), a, "operands unchanged"); same(GA(b_), b, "operands unchanged");
    cover("end");
}
PROOF(arr_23c, "") { array_ops<2, 3, Cd, Cd>(); }
PROOF(arr_31c, "") { array_ops<3, 1, Cd, Cd>(); }
PROOF(arr_22r, "") { array_ops<2, 2, double, double>(); }
PROOF(arr_22f, "") { array_ops<2, 2, float, float>(); }

PROOF(arr_mixed_f, "") { array_ops<2, 2, Cf, Cd, Cf>(); }
PROOF(arr_int, "") { array_ops<2, 2, double, double, int>(); }
PROOF(arr_cint, "") { array_ops<1, 2, Cd, Cd, int>(); }
PROOF(arr_creal, "") { array_ops<1, 2, Cd, Cd, double>(); }
PROOF(arr_fint, "") { array_ops<1, 2, float, float, int>(); }
PROOF(arr_fn, "") {
    auto x = anya<2, 2, double>("x"), y = anya<2, 2, double>("y"); auto z = anya<1, 2, Cd>("z");
#define FN(f) { auto r = f(x); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(r.e(i, j), std::f(x.e(i, j)), #f); }
    FN(sqrt) FN(cbrt) FN(exp) FN(log) FN(sin) FN(cos) FN(tan) FN(asin) FN(acos) FN(atan) FN(sinh) FN(cosh) FN(tanh) FN(floor) FN(ceil) FN(trunc) FN(round) FN(abs)
    { auto r = pow(x, y); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(r.e(i, j), std::pow(x.e(i, j), y.e(i, j)), "pow array"); }
    { double p = any<double>("p"); auto r = pow(x, p); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(r.e(i, j), std::pow(x.e(i, j), p), "pow"); }
    { auto r = abs(z); for (int j = 0; j < 2; j++) eq(r.e(0, j) * r.e(0, j), n2(C(z.e(0, j))), "abs complex"); }
    { auto r = exp(z); for (int j = 0; j < 2; j++) same(C(r.e(0, j)), C(exp(z.e(0, j))), "exp complex"); }
    { auto r = hila::cast_to<float>(x); for (int i = 0; i < 2; i++) for (int j = 0; j < 2; j++) eq(r.e(i, j), x.e(i, j), "cast"); auto q = hila::cast_to<float>(z); for (int j = 0; j < 2; j++) same(C(q.e(0, j)), C(z.e(0, j)), "cast complex"); }
    cover("end");
}
template <int n> void extrema() {
    auto x = anya<n, 1, double>("x"); int ix = -1, in = -1; double mx_ = x.max(), mn = x.min(), m1 = x.max(ix), m2 = x.min(in); bool hx = false, hn = false;
    for (int i = 0; i < n; i++) { ensure(x.e(i) <= mx_, "max is an upper bound"); ensure(x.e(i) >= mn, "min is a lower bound"); hx = hx | (x.e(i) == mx_); hn = hn | (x.e(i) == mn); }
    ensure(hx, "max is attained"); ensure(hn, "min is attained"); eq(m1, mx_, "max(i)"); eq(m2, mn, "min(i)"); ensure(ix >= 0 && ix < n, "max index"); ensure(in >= 0 && in < n, "min index");
    for (int i = 0; i < n; i++) { if (i == ix) eq(x.e(i), mx_, "max index"); if (i == in) eq(x.e(i), mn, "min index"); }
    DiagonalMatrix<n, double> d; for (int i = 0; i < n; i++) d.e(i) = x.e(i); eq(d.max(), mx_, "diagonal max"); eq(d.min(), mn, "diagonal min");
    cover("end");
}
PROOF(extrema3, "") { extrema<3>(); }
PROOF(dot, "") {
    auto a = anya<3, 1, Cd>("a"), b = anya<3, 1, Cd>("b"); cx r; for (int i = 0; i < 3; i++) r = add(r, mul(con(C(a.e(i))), C(b.e(i)))); same(C(a.dot(b)), r, "dot"); cover("end");
}
template <int n, typename T> mx<n, n> GD(const DiagonalMatrix<n, T> &x) { mx<n, n> r; for (int i = 0; i < n; i++) r(i, i) = C(x.e(i)); return r; }
template <int n, typename T> DiagonalMatrix<n, T> anyd(const char *l) { DiagonalMatrix<n, T> x; for (int i = 0; i < n; i++) anys(x.e(i), l); return x; }
template <int n, typename F> mx<n, n> dw(const mx<n, n> &a, const mx<n, n> &b, F f) { mx<n, n> r; for (int i = 0; i < n; i++) r(i, i) = f(a(i, i), b(i, i)); return r; }
template <int n, typename T, typename S, typename X = T> void diag_ops() {
    using D = DiagonalMatrix<n, T>; auto a_ = anyd<n, T>("a"); auto b_ = anyd<n, S>("b"); auto a = GD(a_); auto b = GD(b_); X s = anyn<X>("s"); cx z = C(s); auto sc = scale(unit<n>(), z);
    auto fd = [](cx x, cx y) { return dvd(x, y); }; bool bn = true, an = true; for (int i = 0; i < n; i++) { bn = bn & !((b(i, i).re == 0) & (b(i, i).im == 0)); an = an & !((a(i, i).re == 0) & (a(i, i).im == 0)); }
    same(GD(a_ + b_), add(a, b), "a+b"); same(GD(a_ - b_), sub(a, b), "a-b"); same(GD(a_ * b_), mul(a, b), "a*b"); same(GD(-a_), sub(mx<n, n>(), a), "-a"); same(GD(+a_), a, "+a");
    same(GD(a_ + s), add(a, sc), "a+s"); same(GD(s + a_), add(a, sc), "s+a"); same(GD(a_ - s), sub(a, sc), "a-s"); same(GD(s - a_), sub(sc, a), "s-a"); same(GD(a_ * s), scale(a, z), "a*s"); same(GD(s * a_), scale(a, z), "s*a");
    D t = a_; t += b_; same(GD(t), add(a, b), "+="); t = a_; t -= b_; same(GD(t), sub(a, b), "-="); t = a_; t *= b_; same(GD(t), mul(a, b), "*="); t = a_; t += s; same(GD(t), add(a, sc), "+= s"); t = a_; t -= s; same(GD(t), sub(a, sc), "-= s"); t = a_; t *= s; same(GD(t), scale(a, z), "*= s");
    t = s; same(GD(t), sc, "= s"); D t2(s); same(GD(t2), sc, "D(s)"); t = b_; same(GD(t), b, "="); t = a_; t.fill(s); same(GD(t), sc, "fill");
    t = a_; t += t.e(0); same(GD(t), add(a, scale(unit<n>(), a(0, 0))), "d += d[0]"); t = a_; t -= t.e(0); same(GD(t), sub(a, scale(unit<n>(), a(0, 0))), "d -= d[0]"); t = a_; t *= t.e(0); same(GD(t), scale(a, a(0, 0)), "d *= d[0]");
    if (bn) { same(GD(a_ / b_), dw(a, b, fd), "a/b"); t = a_; t /= b_; same(GD(t), dw(a, b, fd), "/="); }
    if (!zero(z)) { same(GD(a_ / s), dw(a, sc, fd), "a/s"); t = a_; t /= s; same(GD(t), dw(a, sc, fd), "/= s"); }
    if (an) { same(GD(s / a_), dw(sc, a, fd), "s/a"); t = a_; t /= t.e(0); same(GD(t), dw(a, scale(unit<n>(), a(0, 0)), fd), "d /= d[0]"); }
    same(GD(a_.conj()), con(a), "conj"); same(GD(a_.dagger()), con(a), "dagger"); same(GD(a_.adjoint()), con(a), "adjoint"); same(GD(a_.transpose()), a, "transpose"); same(GD(conj(a_)), con(a), "conj"); same(GD(dagger(a_)), con(a), "dagger"); same(GD(adjoint(a_)), con(a), "adjoint"); same(GD(transpose(a_)), a, "transpose");
    cx tr_, dt = {1, 0}; double sq = 0; for (int i = 0; i < n; i++) { tr_ = add(tr_, a(i, i)); dt = mul(dt, a(i, i)); sq += n2(a(i, i)); eq(C(a_.real().e(i)).re, a(i, i).re, "real"); eq(C(a_.imag().e(i)).re, a(i, i).im, "imag"); double u = a_.abs().e(i); eq(u * u, n2(a(i, i)), "abs"); }
    same(C(a_.trace()), tr_, "trace"); same(C(a_.det()), dt, "det"); eq(a_.squarenorm(), sq, "squarenorm"); same(C(trace(a_)), tr_, "trace"); same(C(det(a_)), dt, "det"); eq(squarenorm(a_), sq, "squarenorm"); double nn = a_.norm(); eq(nn * nn, sq, "norm");
    is(a_.toMatrix(), a, "toMatrix"); for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) { const D &ca = a_; same(C(ca.e(i, j)), a(i, j), "e(i,j)"); same(C(a_.row(i).e(j)), a(i, j), "row"); same(C(a_.column(j).e(i)), a(i, j), "column"); }
    bool e = true; for (int i = 0; i < n; i++) e = e & (a(i, i).re == b(i, i).re) & (a(i, i).im == b(i, i).im); ensure((a_ == b_) == e, "=="); ensure((a_ != b_) == !e, "!=");
    same(GD(a_), a, "operands unchanged"); same(GD(b_), b, "operands unchanged");
    cover("end");
}
PROOF(diag_3c, "") { diag_ops<3, Cd, Cd>(); }
PROOF(diag_2r, "") { diag_ops<2, double, double>(); }
PROOF(diag_2f, "") { diag_ops<2, float, float>(); }
PROOF(diag_mixed, "") { diag_ops<2, Cd, double, double>(); }
PROOF(diag_int, "") { diag_ops<2, double, double, int>(); }
PROOF(diag_cint, "") { diag_ops<2, Cd, Cd, int>(); }
PROOF(diag_creal, "") { diag_ops<2, Cd, Cd, double>(); }
template <int n, int m, typename T, typename S> void diag_mat() {
    auto d_ = anyd<n, T>("d"); auto d = GD(d_); auto M = anym<Matrix<n, n, S>>("m"); auto a = G(M); auto W = anym<Matrix<n, m, S>>("w"); auto w = G(W); auto V = anym<Matrix<m, n, S>>("v"); auto v = G(V);
    is(d_ + M, add(d, a), "d+M"); is(M + d_, add(a, d), "M+d"); is(d_ - M, sub(d, a), "d-M"); is(M - d_, sub(a, d), "M-d"); is(d_ * W, mul(d, w), "d*W"); is(V * d_, mul(v, d), "V*d");
    bool nzd = true; for (int i = 0; i < n; i++) nzd = nzd & !((d(i, i).re == 0) & (d(i, i).im == 0));
    if (nzd) { mx<m, n> q; for (int i = 0; i < m; i++) for (int j = 0; j < n; j++) q(i, j) = dvd(v(i, j), d(j, j)); is(V / d_, q, "V/d"); }
    bool e = true; for (int i = 0; i < n; i++) for (int j = 0; j < n; j++) e = e & (a(i, j).re == d(i, j).re) & (a(i, j).im == d(i, j).im); ensure((d_ == M) == e, "d==M"); ensure((M == d_) == e, "M==d");
    cover("end");
}
PROOF(dm_23c, "") { diag_mat<2, 3, Cd, Cd>(); }
PROOF(dm_32m, "") { diag_mat<3, 2, double, Cd>(); }
PROOF(dm_31r, "") { diag_mat<3, 1, double, double>(); }
PROOF(diag_fn, "") {
    auto x = anyd<2, double>("x");
#define FD(f) { auto r = f(x); for (int i = 0; i < 2; i++) eq(r.e(i), std::f(x.e(i)), "diagonal " #f); }
    FD(sqrt) FD(cbrt) FD(exp) FD(log) FD(sin) FD(cos) FD(tan) FD(asin) FD(acos) FD(atan) FD(sinh) FD(cosh) FD(tanh)
    double p = any<double>("p"); auto r = pow(x, p); for (int i = 0; i < 2; i++) eq(r.e(i), std::pow(x.e(i), p), "diagonal pow"); 
    auto f = hila::cast_to<float>(x); for (int i = 0; i < 2; i++) eq(f.e(i), x.e(i), "diagonal cast");
    cover("end");
}
