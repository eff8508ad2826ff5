// Plain reference arithmetic used by the specifications: no HILA types.
#ifndef SPEC_H_
#define SPEC_H_
struct cx { double re = 0, im = 0; };
static inline cx add(cx a, cx b) { return {a.re + b.re, a.im + b.im}; }
static inline cx sub(cx a, cx b) { return {a.re - b.re, a.im - b.im}; }
static inline cx mul(cx a, cx b) { return {a.re * b.re - a.im * b.im, a.re * b.im + a.im * b.re}; }
static inline cx con(cx a) { return {a.re, -a.im}; }
static inline cx neg(cx a) { return {-a.re, -a.im}; }
static inline double n2(cx a) { return a.re * a.re + a.im * a.im; }
static inline cx dvd(cx a, cx b) { cx t = mul(a, con(b)); double n = n2(b); return {t.re / n, t.im / n}; }
template <typename T> cx C(const Complex<T> &a) { return {(double)a.re, (double)a.im}; }
static inline cx C(double a) { return {a, 0}; }
static inline void same(cx a, cx b, const char *l) { v::eq(a.re, b.re, l); v::eq(a.im, b.im, l); }
static inline bool zero(cx a) { return a.re == 0 && a.im == 0; }
// n x m matrix of plain complex numbers
template <int n, int m> struct mx {
    cx a[n][m];
    cx &operator()(int i, int j) { return a[i][j]; }
    const cx &operator()(int i, int j) const { return a[i][j]; }
};
template <int n, int m, int l> mx<n, l> mul(const mx<n, m> &x, const mx<m, l> &y) {
    mx<n, l> r;
    for (int i = 0; i < n; i++) for (int j = 0; j < l; j++) { cx s; for (int k = 0; k < m; k++) s = add(s, mul(x(i, k), y(k, j))); r(i, j) = s; }
    return r;
}
template <int n, int m> mx<n, m> add(const mx<n, m> &x, const mx<n, m> &y) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = add(x(i, j), y(i, j)); return r; }
template <int n, int m> mx<n, m> sub(const mx<n, m> &x, const mx<n, m> &y) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = sub(x(i, j), y(i, j)); return r; }
template <int n, int m> mx<n, m> scale(const mx<n, m> &x, cx s) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = mul(x(i, j), s); return r; }
template <int n, int m> mx<m, n> tr(const mx<n, m> &x) { mx<m, n> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(j, i) = x(i, j); return r; }
template <int n, int m> mx<n, m> con(const mx<n, m> &x) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = con(x(i, j)); return r; }
template <int n> mx<n, n> unit() { mx<n, n> r; for (int i = 0; i < n; i++) r(i, i).re = 1; return r; }
template <int n, int m, typename M> mx<n, m> get(const M &x) { mx<n, m> r; for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) r(i, j) = C(x.e(i, j)); return r; }
template <typename M> auto G(const M &x) { return get<M::rows(), M::columns()>(x); }
template <int n, int m> void same(const mx<n, m> &x, const mx<n, m> &y, const char *l) { for (int i = 0; i < n; i++) for (int j = 0; j < m; j++) same(x(i, j), y(i, j), l); }
template <typename M, int n, int m> void is(const M &x, const mx<n, m> &y, const char *l) {
    static_assert(M::rows() == n && M::columns() == m, "shape");
    same(get<n, m>(x), y, l);
}
template <int n> cx det(const mx<n, n> &x) { // Leibniz by first row expansion
    if constexpr (n == 1) return x(0, 0);
    else {
        cx s;
        for (int k = 0; k < n; k++) {
            mx<n - 1, n - 1> mnr;
            for (int i = 1; i < n; i++) for (int j = 0, c = 0; j < n; j++) if (j != k) mnr(i - 1, c++) = x(i, j);
            cx t = mul(x(0, k), det(mnr));
            s = (k & 1) ? sub(s, t) : add(s, t);
        }
        return s;
    }
}
template <typename T> void anys(T &x, const char *n) {
    if constexpr (hila::is_complex<T>::value) { x.re = v::any<decltype(x.re)>(n); x.im = v::any<decltype(x.re)>(n); }
    else x = v::any<T>(n);
}
template <typename M> M anym(const char *nm) { M x; for (int i = 0; i < M::rows(); i++) for (int j = 0; j < M::columns(); j++) anys(x.e(i, j), nm); return x; }
template <typename T> T anyn(const char *nm) { T x; anys(x, nm); return x; }
#endif
