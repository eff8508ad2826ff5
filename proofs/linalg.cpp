// Determinants, LU, inverse, eigen and singular value decompositions against their defining equations.
#include "hila.h"
#include "verif.h"
using namespace v;
#include "spec.h"
using Cd = Complex<double>;
template <int n, typename T> void laplace() {
    auto A = anym<SquareMatrix<n, T>>("A"); cx d = det(G(A));
    same(C(A.det_laplace()), d, "det_laplace"); same(C(det_laplace(A)), d, "det_laplace");
    if (n < 5) { same(C(A.det()), d, "det"); same(C(det(A)), d, "det"); }
    cover("end");
}
PROOF(laplace1, "") { laplace<1, Cd>(); }
PROOF(laplace2, "") { laplace<2, Cd>(); }
PROOF(laplace3, "") { laplace<3, Cd>(); }
PROOF(laplace4, "") { laplace<4, Cd>(); }
PROOF(laplace5, "") { laplace<5, double>(); }
// regular: only the results that are not exactly zero are compared (a zero pivot returns 0 early)
template <int n, typename T> void lu(bool regular = false) {
    auto A = anym<SquareMatrix<n, T>>("A"); cx d = det(G(A));
    cx r = C(A.det_lu());
    if (regular && zero(r)) return;
    same(r, d, "det_lu");
    cover("end");
}
PROOF(lu1, "merge=false lazyreal forkint") { lu<1, Cd>(); }
PROOF(lu2, "merge=false lazyreal forkint") { lu<2, double>(); }
PROOF(lu2c, "merge=false lazyreal forkint") { lu<2, Cd>(true); }
PROOF(lu3, "merge=false lazyreal forkint") { lu<3, double>(true); }
PROOF(lu3c, "merge=false lazyreal forkint tier=thorough") { lu<3, Cd>(true); }
template <int n, typename T> void inverse() {
    auto A = anym<SquareMatrix<n, T>>("A"); auto a = G(A); cx d = det(a); require(!zero(d));
    auto B = A.LU_invert(); auto b = G(B);
    same(mul(a, b), unit<n>(), "A*inverse = 1"); 
    auto x = anym<Vector<n, T>>("x"); auto y = A.LU_solve(x); same(mul(a, G(y)), G(x), "A*solve(A,x) = x");
    cover("end");
}
PROOF(inv1, "merge=false lazyreal forkint") { inverse<1, Cd>(); }
PROOF(inv2, "merge=false lazyreal forkint") { inverse<2, double>(); }
PROOF(inv2c, "merge=false lazyreal forkint") { inverse<2, Cd>(); }
PROOF(inv3, "merge=false lazyreal forkint") { inverse<3, double>(); }
