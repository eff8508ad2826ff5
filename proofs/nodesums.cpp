// C13: sums and products of ordinary variables over the ranks
#include "hila.h"
#include "verif.h"
using namespace v;
#include "plumbing/com_mpi.cpp"
#include <map>
static int my_rank, n_ranks;
typedef Complex<double> C;
typedef Vector<2, Complex<float>> F;
#ifndef REPLAY
static lattice_struct L; static int nd, nf, nl, calls; static bool all_; static double sd[8], rd[8], sf[8], rf[8], sl[8], rl[8]; static MPI_Op op_;
static double get(const void *p, int i, MPI_Datatype t) { return t == MPI_DOUBLE ? ((const double *)p)[i] : (double)((const float *)p)[i]; }
static void reduce_(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, bool all) {
    calls++; ensure(all == all_, "result to all ranks as asked"); ensure(o == op_, "operation"); ensure(c == L.mpi_comm_lat, "communicator of the lattice"); ensure(s != r, "send and receive buffers differ");
    ensure((t == MPI_DOUBLE) | (t == MPI_FLOAT), "element type"); const int want = t == MPI_DOUBLE ? nd : nf; ensure(n == want, "number of elements"); if (n != want) __v_stop();
    for (int i = 0; i < n; i++) {
        if (t == MPI_DOUBLE) { eq(((const double *)s)[i], sd[i], "rank contributes its value"); if (all | (my_rank == 0)) ((double *)r)[i] = rd[i]; }
        else { eq(((const float *)s)[i], sf[i], "rank contributes its value"); if (all | (my_rank == 0)) ((float *)r)[i] = (float)rf[i]; }
    }
}
STUB(allreduce, "^MPI_Allreduce$")
extern "C" int stub_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { reduce_(s, r, n, t, o, c, true); return 0; }
STUB(reduce, "^MPI_Reduce$")
extern "C" int stub_reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { ensure(root == 0, "root is rank 0"); reduce_(s, r, n, t, o, c, false); return 0; }
STUB(myrank, "^hila::myrank\\(")
extern "C" int stub_myrank() { return my_rank; }
STUB(timer, "^hila::timer::st(art|op)\\(")
extern "C" double stub_timer(hila::timer *) { return 0; }
#define ST "stubs=allreduce+reduce+myrank+timer"
static void world() {
    new (&double_reduction_buffer) std::vector<double>(); new (&double_reduction_ptrs) std::vector<double *>(); new (&float_reduction_buffer) std::vector<float>(); new (&float_reduction_ptrs) std::vector<float *>(); n_double = n_float = 0;
    my_rank = range("rank", 0, 1 << 20); n_ranks = range("ranks", 1, 1 << 20); require(my_rank < n_ranks); all_ = any<bool>("allreduce"); op_ = MPI_SUM; calls = nd = nf = 0; rank0_block_level_ = 0; hila::check_input = false;
    L.mpi_comm_lat = (MPI_Comm)array<double>("comm", 1); lattice.set_lattice_pointer(&L);
}
static void addd(double *p, int n) { for (int i = 0; i < n; i++) { sd[nd] = p[i]; rd[nd] = any<double>("result"); nd++; } }
static void addf(float *p, int n) { for (int i = 0; i < n; i++) { sf[nf] = p[i]; rf[nf] = any<float>("result"); nf++; } }
static void same(double *p, int k, int n) { for (int i = 0; i < n; i++) eq(p[i], (all_ | (my_rank == 0)) ? rd[k + i] : sd[k + i], "variable holds the result"); }
static void same(float *p, int k, int n) { for (int i = 0; i < n; i++) eq(p[i], (all_ | (my_rank == 0)) ? rf[k + i] : sf[k + i], "variable holds the result"); }
// the variables of one site loop are reduced together
static void round_(bool d, bool z, bool f, bool rev) {
    double a = any<double>("a"); C c = make<C, double>("c"); F v = make<F, float>("v"); double a0 = a; C c0 = c; F v0 = v; nd = nf = calls = 0; int ka = 0, kc = 0;
    for (int k = 0; k < 2; k++) {
        if (d && k == rev) { ka = nd; addd(&a, 1); hila_reduce_sum_setup(&a); }
        if (z && k != rev) { kc = nd; addd((double *)&c, 2); hila_reduce_sum_setup(&c); }
    }
    if (f) { addf((float *)&v, 4); hila_reduce_sum_setup(&v); }
    ensure(calls == 0, "reduced together"); hila_reduce_sums(); ensure(calls == (d || z) + f, "one reduction per element type");
    if (d) same(&a, ka, 1); else eq(a, a0, "other variables are kept");
    if (z) same((double *)&c, kc, 2); else { eq(c.re, c0.re, "other variables are kept"); eq(c.im, c0.im, "other variables are kept"); }
    if (f) same((float *)&v, 0, 4); else for (int i = 0; i < 4; i++) eq(((float *)&v)[i], ((float *)&v0)[i], "other variables are kept");
    ensure(rank0_block_level_ == 0, "block level");
}
static void coalesced(int first, int second) {
    world(); hila::set_allreduce(all_); ensure(hila::get_allreduce() == all_, "allreduce setting is kept");
    round_(first & 1, first & 2, first & 4, first & 8); round_(second & 1, second & 2, second & 4, second & 8); nd = nf = calls = 0; hila_reduce_sums(); ensure(calls == 0, "nothing is reduced twice"); cover("end");
}
template <typename T> void direct(bool prod, bool array) { // hila::reduce_node_sum and reduce_node_product
    world(); op_ = prod ? MPI_PROD : MPI_SUM; constexpr int N = 3, n = sizeof(T) / sizeof(hila::arithmetic_type<T>); const int k = array ? N : 1; T x[N]; for (int i = 0; i < N; i++) x[i] = make<T, hila::arithmetic_type<T>>("x"); T x2 = x[2];
    using B = hila::arithmetic_type<T>; if constexpr (std::is_same_v<B, double>) addd((double *)x, k * n); else addf((float *)x, k * n);
    T y; bool zero = any<bool>("zero");
    if (array && zero) { if (prod) return; hila::reduce_node_sum(x, 0, all_); ensure(calls == 0, "nothing to reduce"); cover("zero"); return; }
    if constexpr (sizeof(T) == sizeof(B)) { if (prod && array) hila::reduce_node_product(x, k, all_); else if (prod) y = hila::reduce_node_product(x[0], all_); }
    if (!prod && array) hila::reduce_node_sum(x, k, all_); else if (!prod) y = hila::reduce_node_sum(x[0], all_);
    ensure(calls == 1, "one reduction"); same((B *)x, 0, k * n); if (!array) { for (int i = 0; i < n; i++) eq(((B *)&y)[i], ((B *)x)[i], "returns the result"); for (int i = 0; i < n; i++) eq(((B *)&x[2])[i], ((B *)&x2)[i], "other variables are kept"); }
    ensure(rank0_block_level_ == 0, "block level"); cover("end");
}
#else
namespace hila { std::ostream out(nullptr), out0(nullptr); bool check_input = false; int check_with_nodes; }
static void reset_rank() { n_double = n_float = 0; allreduce_on = true; rank0_block_level_ = 0; mpi_initialized = true; }
#include "mpi_world.h"
extern "C" int MPI_Comm_rank(MPI_Comm, int *r) { *r = my_rank; return 0; }
Lattice lattice;
static void coalesced(int, int) {
    n_ranks = range("ranks", 1, 4); struct R { int m; double x[4]; bool all; }; std::vector<R> h; const int n = range("rounds", 1, 4);
    for (int i = 0; i < n; i++) { R r; r.m = range("variables", 0, 31); for (double &x : r.x) x = range("x", -5, 5); r.all = any<bool>("allreduce"); h.push_back(r); }
    all_ranks([&] { for (auto &o : h) {
        double a = o.x[0] + my_rank, a0 = a; C c(o.x[1] - my_rank, o.x[2] * my_rank), c0 = c; F v; v[0] = Complex<float>(o.x[3] + my_rank, o.x[2]); v[1] = Complex<float>(o.x[0], o.x[1] * my_rank); F v0 = v; int64_t l = my_rank + 7; const int k = n_ranks * (n_ranks - 1) / 2, m = o.m, P = n_ranks;
        hila::set_allreduce(o.all);
        if ((m & 1) && !(m & 8)) hila_reduce_sum_setup(&a);
        if (m & 2) hila_reduce_sum_setup(&c);
        if ((m & 1) && (m & 8)) hila_reduce_sum_setup(&a);
        if (m & 4) hila_reduce_sum_setup(&v);
        if (m & 16) hila_reduce_sum_setup(&l);
        hila_reduce_sums(); hila::set_allreduce(true);
        const bool g = o.all || my_rank == 0; double x[4] = {o.x[0], o.x[1], o.x[2], o.x[3]};
        eq(a, (m & 1) && g ? P * x[0] + k : a0, "sum of a double"); eq(c.re, (m & 2) && g ? P * x[1] - k : c0.re, "sum of a complex"); eq(c.im, (m & 2) && g ? x[2] * k : c0.im, "sum of a complex");
        const bool f = (m & 4) && g; eq(v[0].re, f ? P * x[3] + k : v0[0].re, "sum of a float vector"); eq(v[0].im, f ? P * x[2] : v0[0].im, "sum of a float vector"); eq(v[1].re, f ? P * x[0] : v0[1].re, "sum of a float vector"); eq(v[1].im, f ? x[1] * k : v0[1].im, "sum of a float vector");
        ensure(l == ((m & 16) && g ? k + 7 * P : my_rank + 7), "sum of a long");
    } });
}
template <typename T> void direct(bool prod, bool array) {
    n_ranks = range("ranks", 1, 4); constexpr int n = sizeof(T) / sizeof(hila::arithmetic_type<T>); const bool all = any<bool>("allreduce"); const int k = array ? range("length", 0, 3) : 1; double b[3][4]; for (auto &r : b) for (double &x : r) x = range("x", -3, 3);
    using B = hila::arithmetic_type<T>;
    all_ranks([&] { T x[3], y; for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) ((B *)&x[i])[j] = b[i][j] + my_rank; y = x[0];
        if constexpr (sizeof(T) == sizeof(B)) { if (prod && array) hila::reduce_node_product(x, k, all); else if (prod) y = hila::reduce_node_product(x[0], all); }
        if (!prod && array) hila::reduce_node_sum(x, k, all); else if (!prod) y = hila::reduce_node_sum(x[0], all);
        for (int i = 0; i < 3; i++) for (int j = 0; j < n; j++) { double w = prod ? 1 : 0; for (int r = 0; r < n_ranks; r++) if (prod) w *= b[i][j] + r; else w += b[i][j] + r; if (i >= k || !(all || my_rank == 0)) w = b[i][j] + my_rank; eq(((B *)&x[i])[j], w, "reduction of an array"); if (!array && i == 0) eq(((B *)&y)[j], w, "returns the result"); } });
}
#define ST ""
#endif
PROOF(coalesced_all, ST) { coalesced(7, 15); }
PROOF(coalesced_fewer, ST) { coalesced(7, 1); }
PROOF(coalesced_more, ST) { coalesced(4, 3); }
PROOF(coalesced_floats, ST) { coalesced(1, 6); }
PROOF(sum_double, ST) { direct<double>(false, false); }
PROOF(sum_complex, ST) { direct<C>(false, false); }
PROOF(sum_array_double, ST) { direct<double>(false, true); }
PROOF(sum_array_complex, ST) { direct<C>(false, true); }
PROOF(sum_array_float, ST) { direct<float>(false, true); }
PROOF(product_double, ST) { direct<double>(true, false); }
PROOF(product_array_double, ST) { direct<double>(true, true); }
PROOF(product_array_float, ST) { direct<float>(true, true); }
