// SU2 in quaternion form against plain 2x2 complex matrices: U = d + i(a s1 + b s2 + c s3).
#include "hila.h"
#include "verif.h"
using namespace v;
#include "spec.h"
#include "rnd.h"
using m2 = mx<2, 2>;
template <typename T> m2 M(const SU2<T> &u) { m2 r; r(0, 0) = {u.d, u.c}; r(0, 1) = {u.b, u.a}; r(1, 0) = {-u.b, u.a}; r(1, 1) = {u.d, -u.c}; return r; }
template <typename T> m2 M(const Algebra<SU2<T>> &e) { m2 r; r(0, 0) = {0, e.c * 0.5}; r(0, 1) = {e.b * 0.5, e.a * 0.5}; r(1, 0) = {-e.b * 0.5, e.a * 0.5}; r(1, 1) = {0, -e.c * 0.5}; return r; }
template <typename T> SU2<T> su(const char *n) { SU2<T> u; u.a = any<T>(n); u.b = any<T>(n); u.c = any<T>(n); u.d = any<T>(n); return u; }
template <typename T> Algebra<SU2<T>> al(const char *n) { Algebra<SU2<T>> u; u.a = any<T>(n); u.b = any<T>(n); u.c = any<T>(n); return u; }
static m2 dag(const m2 &x) { return con(tr(x)); }
static double nrm(const SU2<double> &u) { return u.a * u.a + u.b * u.b + u.c * u.c + u.d * u.d; }
// unit quaternion built by stereographic projection: every element of SU(2) except -1, exactly normalised
static SU2<double> unitary(const char *n) {
    double p = any<double>(n), q = any<double>(n), r = any<double>(n); double s = p * p + q * q + r * r;
    SU2<double> u; u.a = 2 * p / (1 + s); u.b = 2 * q / (1 + s); u.c = 2 * r / (1 + s); u.d = (1 - s) / (1 + s); return u;
}
template <typename T, typename S_ = T> void group() {
    auto X = su<T>("x"), Y = su<T>("y"); m2 x = M(X), y = M(Y); S_ s = any<S_>("s"); cx S{(double)s, 0}; m2 sI = scale(unit<2>(), S);
    same(M(X * Y), mul(x, y), "x*y"); same(M(X + Y), add(x, y), "x+y"); same(M(X - Y), sub(x, y), "x-y"); same(M(-X), sub(m2(), x), "-x"); same(M(+X), x, "+x");
    same(M(X * s), scale(x, S), "x*s"); same(M(s * X), scale(x, S), "s*x"); same(M(X + s), add(x, sI), "x+s"); same(M(s + X), add(x, sI), "s+x"); same(M(X - s), sub(x, sI), "x-s"); same(M(s - X), sub(sI, x), "s-x");
    SU2<T> t = X; t += Y; same(M(t), add(x, y), "+="); t = X; t -= Y; same(M(t), sub(x, y), "-="); t = X; t *= s; same(M(t), scale(x, S), "*= s"); t = X; t += s; same(M(t), add(x, sI), "+= s"); t = X; t -= s; same(M(t), sub(x, sI), "-= s");
    t = s; same(M(t), sI, "= s"); SU2<T> t1(s); same(M(t1), sI, "SU2(s)"); t = Y; same(M(t), y, "="); SU2<T> t2(X); same(M(t2), x, "copy");
    t = {X.a, X.b, X.c, X.d}; same(M(t), x, "= list"); SU2<T> t3{X.a, X.b, X.c, X.d}; same(M(t3), x, "list");
    { SU2<T> &ref = (t = {Y.a, Y.b, Y.c, Y.d}); same(M(ref), y, "= list returns the object"); }
    mult(X, Y, t); same(M(t), mul(x, y), "mult"); eq(mul_trace(X, Y), add(mul(x, y)(0, 0), mul(x, y)(1, 1)).re, "mul_trace");
    same(M(X.dagger()), dag(x), "dagger"); eq(X.trace(), x(0, 0).re + x(1, 1).re, "trace"); eq(trace(X), x(0, 0).re + x(1, 1).re, "trace");
    cx dt = det(x); eq(X.det(), dt.re, "det"); eq(det(X), dt.re, "det"); eq(dt.im, 0, "det real"); eq(X.squarenorm(), dt.re, "squarenorm"); eq(squarenorm(X), dt.re, "squarenorm");
    is(X.convert_to_2x2_matrix(), x, "convert_to_2x2_matrix");
    if (s != 0) { same(M(X / s), scale(x, {1 / (double)s, 0}), "x/s"); t = X; t /= s; same(M(t), scale(x, {1 / (double)s, 0}), "/= s"); }
    auto A = X.project_to_algebra(); m2 h = scale(sub(x, dag(x)), {0.5, 0}); same(M(A), h, "project_to_algebra"); // traceless antihermitean part
    same(M(X.project_to_algebra_scaled(s)), scale(h, S), "project_to_algebra_scaled");
    same(M(X), x, "operands unchanged"); same(M(Y), y, "operands unchanged");
    cover("end");
}
PROOF(group_d, "") { group<double>(); }
PROOF(group_i, "") { group<double, int>(); }
PROOF(group_fd, "") { group<float, double>(); }
PROOF(group_f, "") { group<float>(); }
PROOF(vectors, "") {
    auto X = su<double>("x"); m2 x = M(X); auto V = anym<Vector<2, Complex<double>>>("v"); auto R = anym<RowVector<2, Complex<double>>>("r");
    is(X * V, mul(x, G(V)), "U*v"); is(R * X, mul(G(R), x), "r*U");
    auto N = anym<SquareMatrix<3, Complex<double>>>("n");
    for (int i = 0; i < 2; i++) for (int j = i + 1; j < 3; j++) { // SU(2) subgroup part: (m + sigma2 m* sigma2)/2
        SU2<double> u = project_from_matrix(N, i, j); m2 s; cx a = C(N.e(i, i)), b = C(N.e(i, j)), c = C(N.e(j, i)), d = C(N.e(j, j));
        s(0, 0) = scale(mx<1, 1>{{{add(a, con(d))}}}, {0.5, 0})(0, 0); s(1, 1) = con(s(0, 0)); s(0, 1) = mul({0.5, 0}, sub(b, con(c))); s(1, 0) = neg(con(s(0, 1)));
        same(M(u), s, "project_from_matrix");
    }
    cover("end");
}
PROOF(normalize, "") {
    auto X = su<double>("x"); double n = nrm(X); require(n > 0);
    SU2<double> t = X; t.normalize(); eq(nrm(t), 1, "normalize: unit determinant"); double l = sqrt(n);
    eq(t.a * l, X.a, "normalize: direction"); eq(t.b * l, X.b, "normalize: direction"); eq(t.c * l, X.c, "normalize: direction"); eq(t.d * l, X.d, "normalize: direction");
    t = X; t.reunitarize(); eq(nrm(t), 1, "reunitarize"); eq(t.d * l, X.d, "reunitarize: direction");
    same(mul(M(t), dag(M(t))), unit<2>(), "unitary");
    cover("end");
}
PROOF(unit_closed, "") {
    auto X = unitary("x"), Y = unitary("y"); eq(nrm(X * Y), 1, "closed under product"); same(mul(M(X), M(X.dagger())), unit<2>(), "dagger is the inverse");
    auto E = al<double>("e"); m2 e = M(E);
    same(M(left_conjugation(X, E)), mul(mul(M(X), e), dag(M(X))), "left_conjugation U E U+");
    same(M(right_conjugation(X, E)), mul(mul(dag(M(X)), e), M(X)), "right_conjugation U+ E U");
    cover("end");
}
template <typename T> void algebra() {
    auto E = al<T>("e"), F = al<T>("f"); m2 e = M(E), f = M(F); T s = any<T>("s"); cx S{(double)s, 0};
    same(M(E + F), add(e, f), "e+f"); same(M(E - F), sub(e, f), "e-f"); same(M(-E), sub(m2(), e), "-e"); same(M(+E), e, "+e"); same(M(E * s), scale(e, S), "e*s"); same(M(s * E), scale(e, S), "s*e");
    auto t = E; t += F; same(M(t), add(e, f), "+="); t = E; t -= F; same(M(t), sub(e, f), "-="); t = E; t *= s; same(M(t), scale(e, S), "*="); t = 0; same(M(t), m2(), "=0"); t = {F.a, F.b, F.c}; same(M(t), f, "= list"); t = F; same(M(t), f, "="); Algebra<SU2<T>> z(nullptr); same(M(z), m2(), "zero");
    if (s != 0) { same(M(E / s), scale(e, {1 / (double)s, 0}), "e/s"); t = E; t /= s; same(M(t), scale(e, {1 / (double)s, 0}), "/="); }
    same(M(E.expand()), e, "expand"); double q = E.a * E.a + E.b * E.b + E.c * E.c; eq(E.squarenorm(), q, "squarenorm"); eq(squarenorm(E), q, "squarenorm"); double n = E.norm(); eq(n * n, q, "norm");
    m2 ef = mul(e, f); double d = -2 * (ef(0, 0).re + ef(1, 1).re); eq(E.dot(F), d, "dot = -2 Tr"); eq(su2_algebra_dot(E, F), d, "su2_algebra_dot = -2 Tr");
    auto P = E.expand().project_to_algebra(); same(M(P), e, "project(expand) is the identity");
    same(M(E), e, "operand unchanged");
    cover("end");
}
PROOF(algebra_d, "") { algebra<double>(); }
PROOF(algebra_f, "") { algebra<float>(); }
static void expform(const SU2<double> &u, double a, double b, double c, double sc, const char *l) { // sc*(cos r + i sin r/r a.sigma)
    double r2 = a * a + b * b + c * c, r = sqrt(r2), k = sc * sin(r) / r;
    eq(u.d, sc * cos(r), l); eq(u.a, k * a, l); eq(u.b, k * b, l); eq(u.c, k * c, l);
}
PROOF(algebra_exp, "") {
    auto E = al<double>("e"); double r2 = E.a * E.a + E.b * E.b + E.c * E.c;
    if (r2 > 0) {
        auto U = E.exp(); expform(U, E.a / 2, E.b / 2, E.c / 2, 1, "exp(e)"); eq(nrm(U), 1, "exp(e) in SU(2)");
        expform(exp(E), E.a / 2, E.b / 2, E.c / 2, 1, "exp(e)"); expform(chexp(E), E.a / 2, E.b / 2, E.c / 2, 1, "chexp(e)");
        auto V = (-E).exp(); same(M(V), dag(M(U)), "exp(-e) = exp(e)+");
    }
    Algebra<SU2<double>> z = 0; auto I = z.exp(); same(M(I), unit<2>(), "exp(0)");
    cover("end");
}
PROOF(group_exp, "") {
    auto X = su<double>("x"); double r2 = X.a * X.a + X.b * X.b + X.c * X.c;
    if (r2 > 0) { expform(X.exp(), X.a, X.b, X.c, exp(X.d), "exp(x)"); expform(exp(X), X.a, X.b, X.c, exp(X.d), "exp(x)"); }
    SU2<double> y = X.d; same(M(y.exp()), scale(unit<2>(), {exp(X.d), 0}), "exp(scalar)");
    cover("end");
}
PROOF(group_log, "") {
    auto X = unitary("x"); double r2 = X.a * X.a + X.b * X.b + X.c * X.c; require(r2 > 0);
    auto L = X.log(); double k = 2 * acos(X.d) / sqrt(r2); eq(L.a, k * X.a, "log"); eq(L.b, k * X.b, "log"); eq(L.c, k * X.c, "log");
    auto L2 = log(X); eq(L2.a, L.a, "log"); eq(L2.b, L.b, "log"); eq(L2.c, L.c, "log");
    SU2<double> one = 1; auto Z = one.log(); same(M(Z), m2(), "log(1)");
    cover("end");
}
PROOF(randoms, "") {
    SU2<double> u; double w = any<double>("w"); u.gaussian_random(w); cover("gaussian");
    SU2<double> x; x.random(w); double n = nrm(x); eq(n, 1, "random is in SU(2)");
    cover("end");
}
// U1
PROOF(u1, "") {
    U1<double> a, b; a.phase = any<double>("a"); b.phase = any<double>("b"); double A = a.phase, B = b.phase;
    eq((a * b).phase, A + B, "a*b"); auto t = a; t *= b; eq(t.phase, A + B, "*="); eq(a.conj().phase, -A, "conj"); eq(a.dagger().phase, -A, "dagger"); eq(conj(a).phase, -A, "conj");
    eq((-a).phase, A + M_PI, "-a"); eq((+a).phase, A, "+a"); same(C(a.complex()), {cos(A), sin(A)}, "complex"); eq(a.real(), cos(A), "real"); eq(a.imag(), sin(A), "imag"); eq(real(a), cos(A), "real"); eq(imag(a), sin(A), "imag");
    auto z = anyn<Complex<double>>("z"); same(C(a * z), mul({cos(A), sin(A)}, C(z)), "u*z"); same(C(z * a), mul({cos(A), sin(A)}, C(z)), "z*u");
    t.set_phase(B); eq(t.phase, B, "set_phase"); t.set_phase(z); eq(t.phase, atan2(z.im, z.re), "set_phase(z)"); t = 0; eq(t.phase, 0, "=0");
    auto w = a.complex(); eq(w.re * w.re + w.im * w.im, 1, "unit modulus");
    eq(hila::cast_to<float>(a).phase, A, "cast");
    cover("end");
}
