// Complex<T> arithmetic against plain real formulas.
#include "hila.h"
#include "verif.h"
using namespace v;
struct cx { double re, im; };
static cx add(cx a, cx b) { return {a.re + b.re, a.im + b.im}; }
static cx sub(cx a, cx b) { return {a.re - b.re, a.im - b.im}; }
static cx mul(cx a, cx b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static cx con(cx a) { return {a.re, -a.im}; }
static double n2(cx a) { return a.re * a.re + a.im * a.im; }
static cx dvd(cx a, cx b) { cx t = mul(a, con(b)); double n = n2(b); return {t.re / n, t.im / n}; }
template <typename T> cx C(const Complex<T> &a) { return {a.re, a.im}; }
template <typename T> void same(const Complex<T> &a, cx b, const char *l) { eq(a.re, b.re, l); eq(a.im, b.im, l); }
template <typename T> Complex<T> cplx(const char *n) { Complex<T> z; z.re = any<T>(n); z.im = any<T>(n); return z; }

template <typename T, typename U> void binary() {
    Complex<T> a = cplx<T>("a"); Complex<U> b = cplx<U>("b");
    cx A = C(a), B = C(b);
    same(a + b, add(A, B), "a+b");
    same(a - b, sub(A, B), "a-b");
    same(a * b, mul(A, B), "a*b");
    same(a.conj_mul(b), mul(con(A), B), "conj(a)*b");
    same(a.mul_conj(b), mul(A, con(B)), "a*conj(b)");
    Complex<T> t = a; t += b; same(t, add(A, B), "a+=b");
    t = a; t -= b; same(t, sub(A, B), "a-=b");
    t = a; t *= b; same(t, mul(A, B), "a*=b");
    t = b; same(t, B, "assignment");
    Complex<T> t2(b); same(t2, B, "conversion");
    ensure((a == b) == (A.re == B.re && A.im == B.im), "==");
    ensure((a != b) == !(A.re == B.re && A.im == B.im), "!=");
    same(a, A, "operands unchanged"); same(b, B, "operands unchanged");
    cover("end");
}
PROOF(binary_dd, "") { binary<double, double>(); }
PROOF(binary_df, "") { binary<double, float>(); }
PROOF(binary_ff, "") { binary<float, float>(); }
PROOF(binary_fd, "") { binary<float, double>(); }

template <typename T, typename U> void quotient() {
    Complex<T> a = cplx<T>("a"); Complex<U> b = cplx<U>("b");
    cx A = C(a), B = C(b);
    require(B.re != 0 || B.im != 0);
    auto q = a / b;
    same(q, dvd(A, B), "a/b");
    cx r = mul(C(q), B); eq(r.re, A.re, "(a/b)*b == a"); eq(r.im, A.im, "(a/b)*b == a");
    Complex<T> t = a; t /= b; same(t, dvd(A, B), "a/=b");
    cover("end");
}
PROOF(quotient_dd, "") { quotient<double, double>(); }
PROOF(quotient_df, "") { quotient<double, float>(); }

template <typename T, typename S> void scalar() {
    Complex<T> a = cplx<T>("a"); S s = any<S>("s");
    cx A = C(a), B = {(double)s, 0};
    same(a + s, add(A, B), "a+s"); same(s + a, add(A, B), "s+a");
    same(a - s, sub(A, B), "a-s"); same(s - a, sub(B, A), "s-a");
    same(a * s, mul(A, B), "a*s"); same(s * a, mul(A, B), "s*a");
    Complex<T> t = a; t += s; same(t, add(A, B), "a+=s");
    t = a; t -= s; same(t, sub(A, B), "a-=s");
    t = a; t *= s; same(t, mul(A, B), "a*=s");
    t = s; same(t, B, "a=s");
    same(Complex<T>(s), B, "Complex(s)");
    ensure((a == s) == (A.re == B.re && A.im == 0), "a==s"); ensure((s == a) == (A.re == B.re && A.im == 0), "s==a");
    ensure((a != s) == !(A.re == B.re && A.im == 0), "a!=s"); ensure((s != a) == !(A.re == B.re && A.im == 0), "s!=a");
    if (s != 0) {
        same(a / s, dvd(A, B), "a/s"); t = a; t /= s; same(t, dvd(A, B), "a/=s");
    }
    if (A.re != 0 || A.im != 0) same(s / a, dvd(B, A), "s/a");
    cover("end");
}
PROOF(scalar_dd, "") { scalar<double, double>(); }
PROOF(scalar_ff, "") { scalar<float, float>(); }
PROOF(scalar_di, "") { scalar<double, int>(); }
PROOF(scalar_df, "") { scalar<double, float>(); }

PROOF(unary, "") {
    Complex<double> a = cplx<double>("a"); cx A = C(a);
    same(+a, A, "+a"); same(-a, {-A.re, -A.im}, "-a");
    same(a.conj(), con(A), "conj"); same(a.dagger(), con(A), "dagger"); same(conj(a), con(A), "conj"); same(dagger(a), con(A), "dagger");
    eq(a.squarenorm(), n2(A), "squarenorm"); eq(squarenorm(a), n2(A), "squarenorm");
    double r = a.abs(); eq(r * r, n2(A), "abs^2"); ensure(r >= 0, "abs>=0");
    r = abs(a); eq(r * r, n2(A), "abs^2");
    eq(a.real(), A.re, "real"); eq(a.imag(), A.im, "imag"); eq(real(a), A.re, "real"); eq(imag(a), A.im, "imag");
    eq(a.arg(), std::atan2(A.im, A.re), "arg"); eq(arg(a), std::atan2(A.im, A.re), "arg");
    Complex<double> t = a; t.real() = 3; eq(t.re, 3, "real()="); eq(t.im, A.im, "real()= frame");
    t = a; t.imag() = 3; eq(t.im, 3, "imag()="); eq(t.re, A.re, "imag()= frame");
    auto f = hila::cast_to<float>(a); same(f, A, "cast");
    auto g = hila::cast_to<double>(f); same(g, A, "cast");
    Complex<double> z(nullptr); same(z, {0, 0}, "zero");
    t = 0; same(t, {0, 0}, "assign zero");
    Complex<double> w(A.re, A.im); same(w, A, "construct");
    cover("end");
}
PROOF(aliasing, "") {
    Complex<double> a = cplx<double>("a"); cx A = C(a);
    Complex<double> t = a; t += t; same(t, add(A, A), "z+=z");
    t = a; t -= t; same(t, {0, 0}, "z-=z");
    t = a; t *= t; same(t, mul(A, A), "z*=z");
    t = a; t += t.re; same(t, add(A, {A.re, 0}), "z+=z.re");
    t = a; t *= t.re; same(t, mul(A, {A.re, 0}), "z*=z.re");
    t = a; t *= t.im; same(t, mul(A, {A.im, 0}), "z*=z.im");
    if (A.re != 0) { t = a; t /= t.re; same(t, dvd(A, {A.re, 0}), "z/=z.re"); }
    if (A.im != 0) { t = a; t /= t.im; same(t, dvd(A, {A.im, 0}), "z/=z.im"); }
    if (A.re != 0 || A.im != 0) { t = a; t /= t; same(t, {1, 0}, "z/=z"); }
    cover("end");
}
PROOF(polar, "") {
    double r = any<double>("r"), t = any<double>("t");
    Complex<double> a; a.polar(r, t); same(a, {r * cos(t), r * sin(t)}, "polar");
    same(polar(r, t), {r * cos(t), r * sin(t)}, "polar");
    eq(a.squarenorm(), r * r, "|polar|^2");
    auto e = expi(t); same(e, {cos(t), sin(t)}, "expi"); eq(e.squarenorm(), 1, "|expi|=1");
    same(exp(t * I), {cos(t), sin(t)}, "exp(I t)");
    cover("end");
}
PROOF(elementary, "") {
    Complex<double> z = cplx<double>("z"); double x = z.re, y = z.im;
    same(exp(z), {exp(x) * cos(y), exp(x) * sin(y)}, "exp");
    same(sin(z), {sin(x) * cosh(y), cos(x) * sinh(y)}, "sin");
    same(cos(z), {cos(x) * cosh(y), -sin(x) * sinh(y)}, "cos");
    same(sinh(z), {sinh(x) * cos(y), cosh(x) * sin(y)}, "sinh");
    same(cosh(z), {cosh(x) * cos(y), sinh(x) * sin(y)}, "cosh");
    cover("end");
}
PROOF(logroot, "") {
    Complex<double> z = cplx<double>("z"); double x = z.re, y = z.im; require(x != 0 || y != 0);
    double n = x * x + y * y, a = std::atan2(y, x);
    same(log(z), {0.5 * log(n), a}, "log");
    same(sqrt(z), {pow(n, 0.25) * cos(0.5 * a), pow(n, 0.25) * sin(0.5 * a)}, "sqrt");
    same(cbrt(z), {pow(n, 1.0 / 6.0) * cos((1.0 / 3.0) * a), pow(n, 1.0 / 6.0) * sin((1.0 / 3.0) * a)}, "cbrt");
    Complex<double> w = cplx<double>("w");
    cx L = {0.5 * log(n), a}, P = mul(C(w), L);
    same(pow(z, w), {exp(P.re) * cos(P.im), exp(P.re) * sin(P.im)}, "pow");
    cover("end");
}
PROOF(ratio_functions, "") {
    Complex<double> z = cplx<double>("z"); double x = z.re, y = z.im;
    cx s = {sin(x) * cosh(y), cos(x) * sinh(y)}, c = {cos(x) * cosh(y), -sin(x) * sinh(y)};
    if (n2(c) != 0) same(tan(z), dvd(s, c), "tan");
    cx sh = {sinh(x) * cos(y), cosh(x) * sin(y)}, ch = {cosh(x) * cos(y), sinh(x) * sin(y)};
    if (n2(ch) != 0) same(tanh(z), dvd(sh, ch), "tanh");
    cover("end");
}
PROOF(imaginary_unit, "") {
    Complex<double> a = cplx<double>("a"); cx A = C(a); double s = any<double>("s"), t = any<double>("t");
    same(I * a, {-A.im, A.re}, "I*a"); same(a * I, {-A.im, A.re}, "a*I");
    auto si = s * I; eq(si.re, 0, "s*I"); eq(si.im, s, "s*I");
    auto is = I * s; eq(is.re, 0, "I*s"); eq(is.im, s, "I*s");
    auto m = -si; eq(m.re, 0, "-(sI)"); eq(m.im, -s, "-(sI)");
    eq(si * (t * I), -s * t, "sI*tI");
    same(si * a, mul({0, s}, A), "sI*a");
    same(a + si, add(A, {0, s}), "a+sI"); same(a - si, sub(A, {0, s}), "a-sI"); same(si - a, sub({0, s}, A), "sI-a");
    same(s + t * I, {s, t}, "s+tI"); same(s - t * I, {s, -t}, "s-tI");
    Complex<double> z = a; z += si; same(z, add(A, {0, s}), "a+=sI"); z = a; z *= si; same(z, mul(A, {0, s}), "a*=sI");
    if (t != 0) { auto q = si / t; eq(q.im, s / t, "sI/t"); eq(q.re, 0, "sI/t"); eq(si / (t * I), s / t, "sI/tI"); same(a / (t * I), dvd(A, {0, t}), "a/tI"); }
    same(Complex<double>(3 + 2_i), {3, 2}, "3+2_i"); 
    cover("end");
}
PROOF(fused, "") {
    double a = any<double>("a"), b = any<double>("b"), c = any<double>("c");
    eq(mul_add(a, b, c), a * b + c, "mul_add");
    eq(mul_sub(a, b, c), a * b - c, "mul_sub");
    eq(nmul_add(a, b, c), c - a * b, "nmul_add");
    cover("end");
}
