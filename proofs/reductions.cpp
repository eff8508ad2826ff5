// C13: reductions over the ranks. Each rank hands its own share to MPI exactly once; the result is the old value plus all contributions.
#include "hila.h"
#include "verif.h"
using namespace v;
#include <map>
static int my_rank, n_ranks;
namespace hila {
int myrank() { return my_rank; }
int number_of_nodes() { return n_ranks; }
}
int rank0_block_level_ = 0;
typedef Complex<double> C; typedef Complex<float> CF;
static constexpr int DELAYED = 1, NONBLOCK = 2, ALLRED = 4;
template <typename T> MPI_Datatype dt() {
    using b = hila::arithmetic_type<T>;
    return std::is_same<b, double>::value ? MPI_DOUBLE : std::is_same<b, float>::value ? MPI_FLOAT : std::is_same<b, int>::value ? MPI_INT : MPI_LONG;
}
template <typename T> constexpr int len() { return sizeof(T) / sizeof(hila::arithmetic_type<T>); }
#ifndef REPLAY
// ---- contract of MPI seen from one rank. 'share' is what this rank has to contribute, 'total' the result of the last reduction
static double share[8], total[8]; static int count, ops; static bool pending, pend_all, on_root; static void *target; static MPI_Datatype type; static lattice_struct L; static MPI_Request *rq; static MPI_Op op_;
static bool product_;
static double get(const void *p, int i) { return type == MPI_DOUBLE ? ((const double *)p)[i] : (double)((const float *)p)[i]; }
static void put(void *p, int i, double x) { if (type == MPI_DOUBLE) ((double *)p)[i] = x; else ((float *)p)[i] = (float)x; }
static void deliver(bool all) { if (all | (my_rank == 0)) for (int i = 0; i < count; i++) put(target, i, total[i]); }
static void begin(const void *send, void *recv, int n, MPI_Datatype t, MPI_Op op, MPI_Comm c, bool all, bool nb, MPI_Request *r) {
    ensure(!pending, "no reduction of this variable in progress"); if (pending) __v_stop();
    ensure(n == count, "number of elements"); if (n != count) __v_stop();
    ensure(t == type, "element type"); ensure(op == op_, "sum"); ensure(c == L.mpi_comm_lat, "communicator of the lattice");
    const void *src = send == MPI_IN_PLACE ? recv : send;
    ensure(src == target, "the variable is reduced"); if (src != target) __v_stop();
    if (all | (my_rank == 0)) { ensure(send == MPI_IN_PLACE, "in place"); ensure(recv == target, "result goes to the variable"); }
    else ensure(send != MPI_IN_PLACE, "in place only on the root");
    for (int i = 0; i < count; i++) eq(get(src, i), share[i], "rank contributes its share exactly once");
    ops++; pend_all = all;
    for (int i = 0; i < count; i++) { total[i] = any<double>("total"); share[i] = my_rank == 0 ? total[i] : product_ ? 1 : 0; }
    if (nb) { pending = true; rq = r; if (all | (my_rank == 0)) for (int i = 0; i < count; i++) put(target, i, any<double>("in_progress")); } else deliver(all);
}
STUB(allreduce, "^MPI_Allreduce$")
extern "C" int stub_allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { begin(s, r, n, t, o, c, true, false, nullptr); return 0; }
STUB(iallreduce, "^MPI_Iallreduce$")
extern "C" int stub_iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c, MPI_Request *q) { begin(s, r, n, t, o, c, true, true, q); return 0; }
STUB(reduce, "^MPI_Reduce$")
extern "C" int stub_reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c) { ensure(root == 0, "root is rank 0"); begin(s, r, n, t, o, c, false, false, nullptr); return 0; }
STUB(ireduce, "^MPI_Ireduce$")
extern "C" int stub_ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int root, MPI_Comm c, MPI_Request *q) { ensure(root == 0, "root is rank 0"); begin(s, r, n, t, o, c, false, true, q); return 0; }
STUB(wait, "^MPI_Wait$")
extern "C" int stub_wait(MPI_Request *q, MPI_Status *) { ensure(pending, "wait for a reduction in progress"); if (!pending) __v_stop(); ensure(q == rq, "request of the reduction"); pending = false; deliver(pend_all); return 0; }
STUB(timer, "^hila::timer::st(art|op)\\(")
extern "C" double stub_timer(hila::timer *) { return 0; }
#define ST "stubs=allreduce+iallreduce+reduce+ireduce+wait+timer"
template <typename T> struct World {
    alignas(16) char store[sizeof(Reduction<T>)];
    Reduction<T> &r = *reinterpret_cast<Reduction<T> *>(store);
    World() {
        my_rank = range("rank", 0, 1 << 20); n_ranks = range("ranks", 1, 1 << 20); require(my_rank < n_ranks);
        L.mpi_comm_lat = (MPI_Comm)array<double>("comm", 1); lattice.set_lattice_pointer(&L);
        count = len<T>(); type = dt<T>(); op_ = MPI_SUM; target = &r.val; ops = 0; pending = false; rank0_block_level_ = 0; product_ = false;
    }
    // any state reached by earlier operations
    void any_state() {
        r.is_allreduce_ = any<bool>("allreduce"); r.is_nonblocking_ = any<bool>("nonblocking"); r.is_delayed_ = any<bool>("delayed");
        r.delay_is_on = any<bool>("delay_is_on"); r.comm_is_on = any<bool>("comm_is_on"); r.is_delayed_sum = true;
        require(!(r.delay_is_on & r.comm_is_on)); require(!r.delay_is_on | r.is_delayed_);
        pending = r.comm_is_on; pend_all = any<bool>("pending_allreduce"); rq = &r.request;
        for (int i = 0; i < count; i++) {
            total[i] = any<double>("total"); double x = any<double>("val"); put(&r.val, i, x);
            if (pending) { share[i] = my_rank == 0 ? total[i] : 0; }
            else share[i] = ((my_rank == 0) | r.delay_is_on) ? x : 0;
        }
    }
    void invariant() {
        ensure(r.comm_is_on == pending, "a reduction in progress is remembered");
        ensure(!(r.delay_is_on & r.comm_is_on), "not both delayed and in progress");
        ensure(r.is_delayed_sum, "sum");
        if (pending) ensure(rq == &r.request, "request");
        for (int i = 0; i < count; i++) {
            if (pending) eq(share[i], my_rank == 0 ? total[i] : 0, "share during a reduction");
            else if ((my_rank == 0) | r.delay_is_on) eq(get(&r.val, i), share[i], "variable holds the share of this rank");
            else eq(share[i], 0, "other ranks have nothing to contribute");
        }
        ensure(rank0_block_level_ == 0, "block level");
    }
};
template <typename T> T anyv(const char *n) { return make<T, hila::arithmetic_type<T>>(n); }
template <> double anyv<double>(const char *n) { return any<double>(n); }
template <typename T> void add_node() { // a site loop that adds v on this rank
    World<T> w; w.any_state(); T x = anyv<T>("v"); bool d = w.r.is_delayed_, nb = w.r.is_nonblocking_, all = w.r.is_allreduce_, was = w.r.delay_is_on;
    for (int i = 0; i < count; i++) share[i] += get(&x, i);
    w.r.reduce_sum_node(x);
    ensure(ops == (d ? 0 : 1), "one reduction per loop, none if delayed"); ensure(pending == (!d & nb), "non-blocking reductions go on"); if (pending) ensure(pend_all == all, "result to all ranks as asked");
    if (d) ensure(w.r.delay_is_on, "delayed reduction is remembered");
    w.invariant();
    if (!d & !nb) if (all | (my_rank == 0)) for (int i = 0; i < count; i++) eq(get(&w.r.val, i), total[i], "result is the total");
    ensure(!was | d, "premise"); cover("end");
}
template <typename T> void finish(int how) {
    World<T> w; w.any_state(); bool d = w.r.delay_is_on, nb = w.r.is_nonblocking_, all = pending ? pend_all : w.r.is_allreduce_, had = pending | d; T old = w.r.val, x;
    if (how == 0) w.r.start_reduce(); else if (how == 1) w.r.reduce(); else x = w.r.value();
    ensure(ops == d, "a delayed reduction is done once, others are not repeated"); ensure(!w.r.delay_is_on, "not delayed any more"); w.invariant();
    if (how) ensure(!pending, "the reduction is complete");
    if (how && (all | (my_rank == 0)) && had) for (int i = 0; i < count; i++) eq(get(&w.r.val, i), total[i], "result is the total");
    if (!had) for (int i = 0; i < count; i++) eq(get(&w.r.val, i), get(&old, i), "a finished result stays");
    if (how == 2) for (int i = 0; i < count; i++) eq(get(&x, i), get(&w.r.val, i), "value() returns the result");
    cover("end");
}
template <typename T> void assign() {
    World<T> w; w.any_state(); T x = anyv<T>("v"); T y = (w.r = x);
    for (int i = 0; i < count; i++) share[i] = my_rank == 0 ? get(&x, i) : 0;
    ensure(!pending, "no reduction in progress after assignment"); w.invariant(); for (int i = 0; i < count; i++) eq(get(&y, i), get(&x, i), "assignment returns the value on all ranks");
    if (my_rank != 0) for (int i = 0; i < count; i++) eq(get(&w.r.val, i), 0, "other ranks start from zero");
    cover("end");
}
template <typename T> void construct(bool v) {
    World<T> w; T x = anyv<T>("v"); for (int i = 0; i < 4; i++) total[i] = 0;
    if (v) new (w.store) Reduction<T>(x); else new (w.store) Reduction<T>();
    for (int i = 0; i < count; i++) { share[i] = v && my_rank == 0 ? get(&x, i) : 0; eq(get(&w.r.val, i), share[i], "initial value"); }
    w.invariant(); ensure(w.r.is_allreduce() & !w.r.is_delayed() & !w.r.is_nonblocking() & !w.r.delay_is_on, "default options"); cover("end");
}
template <typename T> void options() {
    World<T> w; w.any_state(); bool a = any<bool>("a"), b = any<bool>("b"), c = any<bool>("c"); T old = w.r.val; bool d = w.r.delay_is_on; w.r.allreduce(a).delayed(b).nonblocking(c);
    ensure((w.r.is_allreduce() == a) & (w.r.is_delayed() == b) & (w.r.is_nonblocking() == c), "options are set"); for (int i = 0; i < count; i++) eq(get(&w.r.val, i), get(&old, i), "options keep the value"); ensure(w.r.delay_is_on == d, "options keep the state"); w.invariant(); cover("end");
}
template <typename T> void plus_outside() { // += outside a site loop: the value on rank 0 counts
    World<T> w; w.any_state(); require(!w.r.delay_is_on & !pending); T x = anyv<T>("v"); w.r += x; if (my_rank == 0) for (int i = 0; i < count; i++) share[i] += get(&x, i); w.invariant(); cover("end");
}
template <typename T> void destroy() { World<T> w; w.any_state(); w.r.~Reduction<T>(); ensure(!pending, "destructor completes the reduction"); ensure(ops == 0, "destructor starts nothing"); cover("end"); }

// ---- ReductionVector: between loops the elements of rank 0, or of all ranks if a delayed reduction is pending, are the shares
static constexpr int NV = 3; // elements (bounded: three elements stand for any number)
struct VWorld {
    alignas(16) char store[sizeof(ReductionVector<double>)];
    ReductionVector<double> &r = *reinterpret_cast<ReductionVector<double> *>(store);
    double *p; bool prod;
    double unit() const { return prod ? 1 : 0; }
    VWorld(bool product) : prod(product) {
        my_rank = range("rank", 0, 1 << 20); n_ranks = range("ranks", 1, 1 << 20); require(my_rank < n_ranks);
        L.mpi_comm_lat = (MPI_Comm)array<double>("comm", 1); lattice.set_lattice_pointer(&L);
        count = NV; type = MPI_DOUBLE; op_ = prod ? MPI_PROD : MPI_SUM; ops = 0; pending = false; rank0_block_level_ = 0; product_ = prod;
        p = array<double>("elements", NV); void **q = (void **)&r.val; q[0] = p; q[1] = q[2] = p + NV; target = p;
        r.is_allreduce_ = any<bool>("allreduce"); r.is_nonblocking_ = any<bool>("nonblocking"); r.is_delayed_ = any<bool>("delayed");
        r.delay_is_on = any<bool>("delay_is_on"); r.comm_is_on = any<bool>("comm_is_on"); r.is_delayed_sum = any<bool>("is_delayed_sum");
        require(!(r.delay_is_on & r.comm_is_on)); require(!r.delay_is_on | r.is_delayed_); require(!r.delay_is_on | (r.is_delayed_sum == !prod));
        pending = r.comm_is_on; pend_all = any<bool>("pending_allreduce"); rq = &r.request;
        for (int i = 0; i < NV; i++) { total[i] = any<double>("total"); if (pending) share[i] = my_rank == 0 ? total[i] : unit(); else share[i] = ((my_rank == 0) | r.delay_is_on) ? p[i] : unit(); }
    }
    void invariant(bool fresh = false) {
        ensure(r.comm_is_on == pending, "a reduction in progress is remembered"); ensure(!(r.delay_is_on & r.comm_is_on), "not both delayed and in progress");
        if (pending) ensure(rq == &r.request, "request");
        if (r.delay_is_on) ensure(r.is_delayed_sum == !prod, "kind of the delayed reduction");
        for (int i = 0; i < NV; i++) {
            if (pending) eq(share[i], my_rank == 0 ? total[i] : unit(), "share during a reduction");
            else if ((my_rank == 0) | r.delay_is_on | fresh) eq(p[i], share[i], "element holds the share of this rank");
            else eq(share[i], unit(), "other ranks have nothing to contribute");
        }
        ensure(rank0_block_level_ == 0, "block level");
    }
};
static void vloop(bool prod) { // a site loop, as hilapp writes it: init, elements updated, reduce
    VWorld w(prod); bool d = w.r.is_delayed_, nb = w.r.is_nonblocking_, all = w.r.is_allreduce_;
    if (prod) w.r.init_product(); else w.r.init_sum();
    ensure(!pending & (ops == 0), "no reduction in progress inside the loop"); w.invariant(true);
    for (int i = 0; i < NV; i++) { double x = any<double>("v"); if (prod) { w.r[i] *= x; share[i] *= x; } else { w.r[i] += x; share[i] += x; } }
    if (prod) w.r.reduce_product(); else w.r.reduce_sum();
    ensure(ops == (d ? 0 : 1), "one reduction per loop, none if delayed"); ensure(pending == (!d & nb), "non-blocking reductions go on"); if (pending) ensure(pend_all == all, "result to all ranks as asked");
    ensure(w.r.delay_is_on == d, "delayed reduction is remembered"); w.invariant();
    if (!d & !nb) if (all | (my_rank == 0)) for (int i = 0; i < NV; i++) eq(w.p[i], total[i], "result is the total");
    cover("end");
}
static void vfinish(bool prod, int how) {
    VWorld w(prod); bool d = w.r.delay_is_on, all = pending ? pend_all : w.r.is_allreduce_, had = pending | d; double old[NV]; for (int i = 0; i < NV; i++) old[i] = w.p[i];
    if (how == 0) w.r.start_reduce(); else if (how == 1) w.r.reduce(); else w.r.wait();
    if (how < 2) { ensure(ops == d, "a delayed reduction is done once, others are not repeated"); ensure(!w.r.delay_is_on, "not delayed any more"); } else ensure(ops == 0, "wait starts nothing");
    w.invariant(); if (how) ensure(!pending, "the reduction is complete");
    if (how == 1 && (all | (my_rank == 0)) && had) for (int i = 0; i < NV; i++) eq(w.p[i], total[i], "result is the total");
    if (!had) for (int i = 0; i < NV; i++) eq(w.p[i], old[i], "a finished result stays");
    cover("end");
}
static void vassign() { // a = x fills all elements; a reduction in progress may not change them afterwards
    VWorld w(false); double x = any<double>("v"); require(!w.r.delay_is_on); w.r = x; ensure(!pending, "no reduction in progress after assignment");
    for (int i = 0; i < NV; i++) { eq(w.p[i], x, "element is assigned"); share[i] = my_rank == 0 ? x : 0; } w.invariant(); cover("end");
}
#else
static void reset_rank() {}
#include "mpi_world.h"
Lattice lattice; hila::timer reduction_timer, reduction_wait_timer;
struct Op { int k; double s; std::vector<double> v; bool a, b, c; };
// k: 0 assign, 1 loop, 2 value, 3 start_reduce, 4 options, 5 elements assigned
static std::vector<Op> history() {
    n_ranks = range("ranks", 1, 4); std::vector<Op> h; const int n = range("steps", 1, 8); 
    for (int i = 0; i < n; i++) { Op o; o.k = range("op", 0, 4); o.s = range("value", -3, 3); for (int r = 0; r < n_ranks; r++) o.v.push_back(range("contribution", -3, 3)); o.a = any<bool>("allreduce"); o.b = any<bool>("delayed"); o.c = any<bool>("nonblocking"); h.push_back(o); }
    h.push_back({2, 0, std::vector<double>(n_ranks, 0), true, true, true}); return h;
}
template <typename T> double num(const T &x) { if constexpr (std::is_same_v<T, C> || std::is_same_v<T, CF>) return x.re; else return x; }
template <typename T> void scalar_history() {
    const auto h = history();
    all_ranks([&] {
        auto &r = *new Reduction<T>(); double want = 0; bool known = true, lastall = true, wait = false;
        for (auto &o : h) {
            double sum = 0; for (double x : o.v) sum += x;
            if (o.k == 0) { r = T(o.s); want = o.s; known = my_rank == 0; }
            if (o.k == 1) { r.reduce_sum_node(T(o.v[my_rank])); want += sum; if (r.is_delayed()) wait = true; else { lastall = r.is_allreduce(); known = true; } }
            if (o.k == 3) r.start_reduce();
            if (o.k == 4 && !wait) { r.allreduce(o.a).delayed(o.b).nonblocking(o.c); }
            if (o.k == 2 || o.k == 3) { if (wait) { lastall = r.is_allreduce(); known = true; } wait = false; }
            if (o.k == 2) { double x = num(r.value()); if (my_rank == 0 || (known && lastall)) eq(x, want, "reduction: the value is the assigned value plus all contributions"); }
        }
    });
}
template <typename T> void vector_history(bool prod) {
    const auto h = history();
    all_ranks([&] {
        auto &r = *new ReductionVector<T>(2); std::vector<double> want(2, 0); bool lastall = true, wait = false;
        for (auto &o : h) {
            if (o.k == 0 && !wait) { r = T(o.s); want = {o.s, o.s}; lastall = true; }
            if (o.k == 1) {
                if (prod) r.init_product(); else r.init_sum();
                for (int i = 0; i < 2; i++) { if (prod) r[i] *= T(o.v[my_rank] + i); else r[i] += T(o.v[my_rank] + i); for (double x : o.v) if (prod) want[i] *= x + i; else want[i] += x + i; }
                if (prod) r.reduce_product(); else r.reduce_sum();
                if (r.is_delayed()) wait = true; else lastall = r.is_allreduce();
            }
            if (o.k == 3) r.start_reduce();
            if (o.k == 4 && !wait) r.allreduce(o.a).delayed(o.b).nonblocking(o.c);
            if (o.k == 2 || o.k == 3) { if (wait) lastall = r.is_allreduce(); wait = false; }
            if (o.k == 2) { r.reduce(); for (int i = 0; i < 2; i++) if (my_rank == 0 || lastall) eq(num(r[i]), want[i], prod ? "vector product: old value times all contributions" : "vector reduction: old value plus all contributions"); }
        }
    });
}
#define ST ""
template <typename T> void add_node() { scalar_history<T>(); }
template <typename T> void finish(int) { scalar_history<T>(); }
template <typename T> void assign() { scalar_history<T>(); }
template <typename T> void construct(bool) { scalar_history<T>(); }
template <typename T> void options() { scalar_history<T>(); }
template <typename T> void plus_outside() { scalar_history<T>(); }
template <typename T> void destroy() { scalar_history<T>(); }
static void vloop(bool p) { vector_history<double>(p); }
static void vfinish(bool p, int) { vector_history<double>(p); }
static void vassign() { vector_history<double>(false); }
#endif
PROOF(add_node_double, ST) { add_node<double>(); }
PROOF(add_node_complex, ST) { add_node<C>(); }
PROOF(add_node_float, ST) { add_node<CF>(); }
PROOF(start_double, ST) { finish<double>(0); }
PROOF(start_complex, ST) { finish<C>(0); }
PROOF(start_float, ST) { finish<CF>(0); }
PROOF(reduce_double, ST) { finish<double>(1); }
PROOF(reduce_complex, ST) { finish<C>(1); }
PROOF(reduce_float, ST) { finish<CF>(1); }
PROOF(value_double, ST) { finish<double>(2); }
PROOF(value_complex, ST) { finish<C>(2); }
PROOF(value_float, ST) { finish<CF>(2); }
PROOF(assign_double, ST) { assign<double>(); }
PROOF(assign_complex, ST) { assign<C>(); }
PROOF(assign_float, ST) { assign<CF>(); }
PROOF(construct_zero, ST) { construct<double>(false); }
PROOF(construct_zero_complex, ST) { construct<C>(false); }
PROOF(construct_zero_float, ST) { construct<CF>(false); }
PROOF(construct_value, ST) { construct<double>(true); }
PROOF(construct_value_complex, ST) { construct<C>(true); }
PROOF(construct_value_float, ST) { construct<CF>(true); }
PROOF(options_double, ST) { options<double>(); }
PROOF(plus_outside_double, ST) { plus_outside<double>(); }
PROOF(destroy_double, ST) { destroy<double>(); }
PROOF(vector_sum, ST) { vloop(false); }
PROOF(vector_product, ST) { vloop(true); }
PROOF(vector_start, ST) { vfinish(false, 0); }
PROOF(vector_start_product, ST) { vfinish(true, 0); }
PROOF(vector_reduce, ST) { vfinish(false, 1); }
PROOF(vector_reduce_product, ST) { vfinish(true, 1); }
PROOF(vector_wait, ST) { vfinish(false, 2); }
PROOF(vector_assign, ST) { vassign(); }
