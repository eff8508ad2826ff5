// Direction, Parity and CoordinateVector algebra, for the compiled NDIM.
#include "hila.h"
#include "verif.h"
using namespace v;
static Direction anydir(const char *n = "dir") { return static_cast<Direction>(range(n, 0, NDIRS - 1)); }
static Direction updir(const char *n = "updir") { return static_cast<Direction>(range(n, 0, NDIM - 1)); }
static const int B = 1 << 28;
static CoordinateVector cv(const char *n, int b = B) { CoordinateVector r; for (int d = 0; d < NDIM; d++) r.e(d) = (int)range(n, -b, b); return r; }
static int unit(Direction dir, int d) { if ((unsigned)dir < NDIM) return (int)dir == d; return (int)NDIRS - 1 - (int)dir == d ? -1 : 0; } // component d of the unit vector
static int cl(Direction dir) { return ((unsigned)dir < NDIM) ? (int)dir : (int)NDIRS - 1 - (int)dir; }
#define ALLD(x) for (int d = 0; d < NDIM; d++) { x; }
PROOF(directions, "mode=int") {
    ensure((int)NDIRS == 2 * NDIM, "2*NDIM directions"); Direction a = anydir("a"), b = anydir("b"), u = updir();
    Direction o = -a; ensure((unsigned)o < NDIRS, "-d is a direction"); ensure(-o == a, "-(-d) == d"); ensure(o != a, "-d != d"); ensure(opp_dir(a) == o, "opp_dir"); ensure(opp_dir((int)a) == o, "opp_dir(int)"); ensure(+a == a, "+d");
    ALLD(ensure(unit(o, d) == -unit(a, d), "-d is the opposite unit vector"));
    ensure(is_up_dir(a) == ((unsigned)a < NDIM), "is_up_dir"); ensure(is_up_dir((int)a) == is_up_dir(a), "is_up_dir(int)"); ensure(is_up_dir(u), "axes are up"); ensure(!is_up_dir(-u), "opposite axes are down");
    ensure((int)abs(a) == cl(a), "abs is the axis"); ensure(abs(a) == abs(o), "abs(-d) == abs(d)"); 
    int dp = 0; ALLD(dp += unit(a, d) * unit(b, d)); ensure(dir_dot_product(a, b) == dp, "dir_dot_product");
    ensure((get_dir_mask(a) & get_dir_mask(b)) != 0 ? a == b : a != b, "direction masks are distinct bits"); ensure(get_dir_mask(a) != 0, "mask non-zero");
    Direction n = a; Direction old = n++; ensure(old == a && (unsigned)n == (unsigned)a + 1, "dir++"); n = a; Direction &r = ++n; ensure(&r == &n && (unsigned)n == (unsigned)a + 1, "++dir"); ensure((unsigned)next_direction(a) == (unsigned)a + 1, "next_direction");
    { int c = 0; bool inorder = true; foralldir(d) { inorder = inorder & ((int)d == c); c++; } ensure(inorder && c == NDIM, "foralldir visits each axis once"); }
    cover("end");
}
PROOF(parity, "mode=int") {
    Parity p = static_cast<Parity>(range("p", 0, 3)); Parity o = opp_parity(p); ensure(opp_parity(o) == p, "opp_parity is an involution"); ensure(~p == o, "~");
    ensure(opp_parity(EVEN) == ODD && opp_parity(ODD) == EVEN && opp_parity(ALL) == ALL && opp_parity(Parity::none) == Parity::none, "opp_parity table");
    ensure(is_even_odd_parity(p) == (p == EVEN || p == ODD), "is_even_odd_parity"); ensure(parity_bits(p) == (unsigned)p, "parity_bits"); ensure(parity_bits_inverse(p) == 3u - (unsigned)p, "parity_bits_inverse"); 
    ensure((parity_bits(EVEN) | parity_bits(ODD)) == parity_bits(ALL) && (parity_bits(EVEN) & parity_bits(ODD)) == 0, "ALL is EVEN plus ODD");
    // parity of a site changes on every step and is additive
    auto c = cv("c"), e = cv("e"); Direction dir = anydir(); int64_t s = 0, t = 0; ALLD(s += c.e(d); t += e.e(d)); int ps = (int)(((s % 2) + 2) % 2), pt = (int)(((t % 2) + 2) % 2);
    ensure(c.parity() == (ps == 0 ? EVEN : ODD), "site parity"); ensure((c + dir).parity() == opp_parity(c.parity()), "a step flips parity"); ensure((c - dir).parity() == opp_parity(c.parity()), "a step flips parity");
    ensure((c + e).parity() == (ps == pt ? EVEN : ODD), "parity is additive"); ensure((-c).parity() == c.parity(), "parity of -c");
    cover("end");
}
PROOF(vectors, "mode=int") {
    auto c = cv("c"), e = cv("e"); Direction dir = anydir(), d2 = anydir("d2"), u = updir(); int k = (int)range("k", -B, B);
    auto p = c + e, m = c - e, pd = c + dir, md = c - dir, dp = dir + c, dm = dir - c, n = -c; CoordinateVector_t<int> pl = +c; auto dd = dir + d2, ds = dir - d2; CoordinateVector kd = k * dir, dk = dir * k; CoordinateVector f(dir); CoordinateVector z(nullptr), w; w = dir; CoordinateVector g; g = 0;
    ALLD(ensure(p.e(d) == c.e(d) + e.e(d), "c+e"); ensure(m.e(d) == c.e(d) - e.e(d), "c-e"); ensure(pd.e(d) == c.e(d) + unit(dir, d), "c+dir"); ensure(md.e(d) == c.e(d) - unit(dir, d), "c-dir"); ensure(dp.e(d) == unit(dir, d) + c.e(d), "dir+c"); ensure(dm.e(d) == unit(dir, d) - c.e(d), "dir-c");
         ensure(n.e(d) == -c.e(d), "-c"); ensure(pl.e(d) == c.e(d), "+c"); ensure(dd.e(d) == unit(dir, d) + unit(d2, d), "dir+dir"); ensure(ds.e(d) == unit(dir, d) - unit(d2, d), "dir-dir"); ensure(kd.e(d) == k * unit(dir, d), "k*dir"); ensure(dk.e(d) == k * unit(dir, d), "dir*k"); ensure(f.e(d) == unit(dir, d), "CoordinateVector(dir)"); ensure(w.e(d) == unit(dir, d), "= dir"); ensure(z.e(d) == 0 && g.e(d) == 0, "zero"))
    auto t = c; t += e; ensure(t == p, "+="); t = c; t -= e; ensure(t == m, "-="); t = c; t += dir; ensure(t == pd, "+= dir"); t = c; t -= dir; ensure(t == md, "-= dir"); t = c; ensure(t == c, "copy");
    bool q = true; ALLD(q = q & (c.e(d) == e.e(d))); ensure((c == e) == q, "=="); ensure((c != e) == !q, "!=");
    q = true; ALLD(q = q & (c.e(d) == unit(dir, d))); ensure((c == dir) == q, "== dir");
    ensure((c + dir) - dir == c, "step forth and back"); ensure(dir + (-dir) == z, "dir + -dir = 0");
    ensure(c[u] == c.e((int)u) && c[(int)u] == c.e((int)u), "[]"); t = c; t[u] = k; ALLD(ensure(t.e(d) == (d == (int)u ? k : c.e(d)), "[] store"));
    cover("end");
}
PROOF(isdir, "mode=int") {
    auto c = cv("c", 1000); Direction r = e_x; bool is = c.is_direction(r); int l1 = 0; ALLD(l1 += c.e(d) < 0 ? -c.e(d) : c.e(d)); ensure(is == (l1 == 1), "is_direction: unit vector");
    if (is) { ALLD(ensure(unit(r, d) == c.e(d), "is_direction: the direction")); }
    ensure(c.norm_L1() == l1, "norm_L1"); auto e = cv("e", 1000); int dt = 0; ALLD(dt += c.e(d) * e.e(d)); ensure(c.dot(e) == dt, "dot");
    cover("end");
}
PROOF(mods, "mode=int") {
    auto c = cv("c"); CoordinateVector m; ALLD(m.e(d) = (int)range("m", 1, B)); auto r = c.mod(m); bool dv = true;
    ALLD(ensure(r.e(d) >= 0 && r.e(d) < m.e(d), "mod lies in [0,m)"); { int64_t q = c.e(d) / m.e(d) - (c.e(d) % m.e(d) < 0 ? 1 : 0); ensure(c.e(d) - r.e(d) == q * m.e(d), "mod differs by a multiple of m"); } dv = dv & (c.e(d) % m.e(d) == 0))
    ensure(c.is_divisible(m) == dv, "is_divisible"); int a = (int)range("a", -B, B), b = (int)range("b", 1, B); int x = pmod(a, b); int64_t q = a / b - (a % b < 0 ? 1 : 0); ensure(x >= 0 && x < b, "pmod in [0,b)"); ensure(a - x == q * b, "pmod differs by a multiple of b");
    cover("end");
}
// periodic stepping: (c + dir) mod L and back is the identity on [0,L)
PROOF(periodic, "mode=int") {
    CoordinateVector m, c; ALLD(m.e(d) = (int)range("m", 1, B); c.e(d) = (int)range("c", 0, B); require(c.e(d) < m.e(d))); Direction dir = anydir(); auto f = (c + dir).mod(m); ensure((f - dir).mod(m) == c, "neighbour of neighbour is the site");
    ALLD(int u = unit(dir, d); int want = c.e(d) + u; want = want == m.e(d) ? 0 : want == -1 ? m.e(d) - 1 : want; ensure(f.e(d) == want, "periodic neighbour"))
    cover("end");
}
