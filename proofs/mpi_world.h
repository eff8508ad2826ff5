// Native reductions of several ranks in one process.
// All ranks, one after the other: a run stops at the first result it needs and does not have; when every rank got there it is known and all start again.
__asm__(".bss\n.globl ompi_mpi_op_sum, ompi_mpi_op_prod, ompi_mpi_double, ompi_mpi_float, ompi_mpi_int, ompi_mpi_long\nompi_mpi_op_sum: .zero 16\nompi_mpi_op_prod: .zero 16\nompi_mpi_double: .zero 16\nompi_mpi_float: .zero 16\nompi_mpi_int: .zero 16\nompi_mpi_long: .zero 16\n.text\n");
struct Stop {};
struct Coll { std::vector<std::vector<double>> in; std::vector<double> out; MPI_Op op; bool ready = false; };
static std::vector<Coll> colls; static size_t ncoll; static lattice_struct L;
struct Open { size_t k; void *to; MPI_Datatype t; bool get; };
static std::map<MPI_Request *, Open> open_;
static double num(const void *p, int i, MPI_Datatype t) { return t == MPI_DOUBLE ? ((const double *)p)[i] : t == MPI_FLOAT ? ((const float *)p)[i] : t == MPI_INT ? ((const int *)p)[i] : (double)((const int64_t *)p)[i]; }
static void setnum(void *p, int i, MPI_Datatype t, double x) { if (t == MPI_DOUBLE) ((double *)p)[i] = x; else if (t == MPI_FLOAT) ((float *)p)[i] = x; else if (t == MPI_INT) ((int *)p)[i] = x; else ((int64_t *)p)[i] = x; }
static void take(const void *p, int n, MPI_Datatype t, MPI_Op op) {
    if (ncoll >= colls.size()) colls.resize(ncoll + 1);
    auto &c = colls[ncoll]; if ((int)c.in.size() < n_ranks) c.in.resize(n_ranks);
    c.op = op; c.in[my_rank].resize(n); for (int i = 0; i < n; i++) c.in[my_rank][i] = num(p, i, t);
}
static void give(size_t k, void *p, MPI_Datatype t) { auto &o = colls[k].out; for (size_t i = 0; i < o.size(); i++) setnum(p, i, t, o[i]); }
static int start(const void *s, void *r, int n, MPI_Datatype t, MPI_Op op, bool all, MPI_Request *q) {
    take(s == MPI_IN_PLACE ? r : s, n, t, op); const size_t k = ncoll++; const bool get = all || my_rank == 0;
    if (q) { ensure(!open_.count(q), "request is not in use"); open_[q] = {k, r, t, get}; return 0; }
    if (!colls[k].ready) { if (get) throw Stop(); return 0; }
    if (get) give(k, r, t);
    return 0;
}
extern "C" {
int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm) { return start(s, r, n, t, o, true, nullptr); }
int MPI_Iallreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm, MPI_Request *q) { return start(s, r, n, t, o, true, q); }
int MPI_Reduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int, MPI_Comm) { return start(s, r, n, t, o, false, nullptr); }
int MPI_Ireduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, int, MPI_Comm, MPI_Request *q) { return start(s, r, n, t, o, false, q); }
int MPI_Wait(MPI_Request *q, MPI_Status *) { auto i = open_.find(q); if (i == open_.end()) return 0; if (i->second.get) { if (!colls[i->second.k].ready) throw Stop(); give(i->second.k, i->second.to, i->second.t); } open_.erase(i); return 0; }
}
namespace hila { double timer::start() { return 0; } double timer::stop() { return 0; } void timer::init(const char *) {} void timer::remove() {} }
template <typename F> void all_ranks(F f) { // f(): one rank's program
    colls.clear(); lattice.set_lattice_pointer(&L);
    for (int round = 0; round < 200; round++) {
        bool stopped = false;
        for (my_rank = 0; my_rank < n_ranks; my_rank++) { ncoll = 0; open_.clear(); reset_rank(); try { f(); } catch (Stop) { stopped = true; } }
        bool more = false;
        for (auto &c : colls) if (!c.ready) {
            size_t n = c.in[0].size(); c.out.assign(n, c.op == MPI_PROD ? 1 : 0); for (auto &x : c.in) { ensure(x.size() == n, "all ranks take part with equal sizes"); for (size_t i = 0; i < n; i++) if (c.op == MPI_PROD) c.out[i] *= x[i]; else c.out[i] += x[i]; }
            c.ready = more = true; break;
        }
        if (!stopped && !more) return;
    }
    ensure(false, "reductions end");
}
