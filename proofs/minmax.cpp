// C13: Field::min() and max(), one site of the loop and the search over the ranks. The loop over the sites is written by hilapp and not covered.
#include "hila.h"
#include "verif.h"
using namespace v;
static int my_rank, n_ranks;
namespace hila {
int myrank() { return my_rank; }
int number_of_nodes() { return n_ranks; }
}
template <typename T> struct VR { T v; int rank; };
#ifdef REPLAY
#define STUB(a, b)
__asm__(".bss\n.globl ompi_mpi_op_minloc, ompi_mpi_op_maxloc, ompi_mpi_double_int, ompi_mpi_float_int, ompi_mpi_long_int, ompi_mpi_2int, ompi_mpi_byte\nompi_mpi_op_minloc: .zero 16\nompi_mpi_op_maxloc: .zero 16\nompi_mpi_double_int: .zero 16\nompi_mpi_float_int: .zero 16\nompi_mpi_long_int: .zero 16\nompi_mpi_2int: .zero 16\nompi_mpi_byte: .zero 16\n.text\n");
Lattice lattice;
#endif
static double value, result; static int owner, nall, nbc; static bool ismin; static lattice_struct L; static MPI_Datatype dtype_; static int here[NDIM], there[NDIM];
template <typename T> void searched(void *buf) { auto *p = (VR<T> *)buf; eq(p->v, value, "rank enters its own extreme value"); ensure(p->rank == my_rank, "rank enters its number"); p->v = (T)result; p->rank = owner; }
STUB(allreduce, "^MPI_Allreduce$")
extern "C" int stub_allreduce(const void *s, void *buf, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) {
    nall++; ensure((s == MPI_IN_PLACE) & (n == 1) & (t == dtype_), "one value and rank"); ensure(o == (ismin ? MPI_MINLOC : MPI_MAXLOC), "minimum or maximum with its rank"); ensure(c == L.mpi_comm_lat, "communicator of the lattice");
    if (t == MPI_DOUBLE_INT) searched<double>(buf); else if (t == MPI_FLOAT_INT) searched<float>(buf); else if (t == MPI_LONG_INT) searched<int64_t>(buf); else searched<int>(buf); return 0;
}
STUB(bcast, "^MPI_Bcast$")
extern "C" int stub_bcast(void *buf, int n, MPI_Datatype t, int root, MPI_Comm c) { nbc++; ensure((n == (int)sizeof(CoordinateVector)) & (t == MPI_BYTE), "location is sent"); ensure(root == owner, "from the rank with the extreme value"); ensure(c == L.mpi_comm_lat, "communicator of the lattice"); int *p = (int *)buf; for (int d = 0; d < NDIM; d++) { ensure(p[d] == here[d], "location of the own extreme value"); p[d] = there[d]; } return 0; }
STUB(sited, "^Field<double>::operator\\[\\]\\(X_index_type\\) const")
extern "C" double stub_sited(const void *) { return value; }
STUB(sitef, "^Field<float>::operator\\[\\]\\(X_index_type\\) const")
extern "C" float stub_sitef(const void *) { return (float)value; }
STUB(coord, "^X_index_type::coordinates\\(\\) const")
static CoordinateVector herev; extern "C" const CoordinateVector *stub_coord(const void *) { for (int d = 0; d < NDIM; d++) herev[d] = here[d]; return &herev; }
#ifdef REPLAY
extern "C" int MPI_Allreduce(const void *s, void *r, int n, MPI_Datatype t, MPI_Op o, MPI_Comm c) { return stub_allreduce(s, r, n, t, o, c); }
extern "C" int MPI_Bcast(void *b, int n, MPI_Datatype t, int root, MPI_Comm c) { return stub_bcast(b, n, t, root, c); }
template <> double Field<double>::operator[](const X_index_type) const { return value; }
template <> float Field<float>::operator[](const X_index_type) const { return (float)value; }
const CoordinateVector &X_index_type::coordinates() const { return *stub_coord(nullptr); }
#endif
#define ST "stubs=allreduce+bcast+sited+sitef+coord"
template <typename T> void extreme(bool min, int how) {
    ismin = min; my_rank = range("rank", 0, 1 << 20); n_ranks = range("ranks", 1, 1 << 20); require(my_rank < n_ranks); owner = range("owner", 0, 1 << 20); require(owner < n_ranks); L.mpi_comm_lat = (MPI_Comm)array<double>("comm", 1); lattice.set_lattice_pointer(&L);
    dtype_ = std::is_same<T, double>::value ? MPI_DOUBLE_INT : MPI_FLOAT_INT; value = any<T>("value"); result = any<T>("result"); nall = nbc = 0; for (int d = 0; d < NDIM; d++) { here[d] = any<int>("here"); there[d] = any<int>("there"); }
    require((value > -std::numeric_limits<T>::max()) & (value < std::numeric_limits<T>::max()));
    char store[sizeof(Field<T>)]; auto &f = *reinterpret_cast<Field<T> *>(store); CoordinateVector loc; T r;
    if (how == 0) r = min ? f.min(EVEN) : f.max(EVEN); else r = min ? f.min(EVEN, loc) : f.max(EVEN, loc);
    const bool one = n_ranks == 1; ensure((nall == !one) & (nbc == !one), "ranks are searched once"); eq(r, one ? value : result, "extreme value"); if (how) for (int d = 0; d < NDIM; d++) ensure(loc[d] == (one ? here[d] : there[d]), "location of the extreme value"); cover("end");
}
PROOF(min_double, ST) { extreme<double>(true, 0); }
PROOF(max_double, ST) { extreme<double>(false, 0); }
PROOF(min_loc_double, ST) { extreme<double>(true, 1); }
PROOF(max_loc_double, ST) { extreme<double>(false, 1); }
PROOF(min_float, ST) { extreme<float>(true, 0); }
PROOF(max_float, ST) { extreme<float>(false, 0); }
