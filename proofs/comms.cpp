// C11: halo messages and the bookkeeping of their state
#ifndef SPECIAL_BOUNDARY_CONDITIONS
#define SPECIAL_BOUNDARY_CONDITIONS
#endif
#include "lat.h"
#ifdef REPLAY
namespace hila { template <> int reduce_node_sum<int>(int &v, bool) { return v; } }
#include "plumbing/lattice.cpp"
#include "plumbing/map_node_layout.cpp"
#include "plumbing/setup_layout_generic.cpp"
#include "world.h"
#include "comms_world.h"
#endif
using namespace lat;
typedef Field<double> F;
typedef F::gather_status_t St;
static constexpr St ND = St::NOT_DONE, GO = St::STARTED, DONE = St::DONE;
#ifndef REPLAY
static lattice_struct L;
alignas(64) static char store[sizeof(F::field_struct)];
static char fstore[sizeof(F)];
static F &f = *reinterpret_cast<F *>(fstore);
static inline F::field_struct &S() { return *reinterpret_cast<F::field_struct *>(store); }
static int D0; // the direction of the gather
// ghost state: receives and sends in progress, halo (even, odd) current, local copies current
static bool act[3], sact[3], cur[2], lcur[2];
static int nrecv, nsend, ngather, tags, tag0, sendtag, recvtag;
static struct { const double *buf; const unsigned *list; int n; bool neg; } call[4];
static inline bool edge(int d) { return d < NDIM ? L.mynode.min[d] + L.mynode.size[d] == L.l_size[d] : L.mynode.min[NDIRS - 1 - d] == 0; }
static inline bool needcomm(int d) { return (S().boundary_condition[d] != hila::bc::DIRICHLET) | !edge(d); }
static inline bool needrecv() { return (L.nn_comminfo[D0].from_node.rank != my_rank) & needcomm(D0); }
static inline bool needsend() { return (L.nn_comminfo[D0].to_node.rank != my_rank) & needcomm(NDIRS - 1 - D0); }
static inline bool antiedge(int d) { return (S().boundary_condition[d] == hila::bc::ANTIPERIODIC) & edge(d); }
static inline bool self() { return L.nn_comminfo[D0].from_node.rank == my_rank; }
static inline St &st(int p) { return S().gather_status_arr[p][D0]; }
// ---- contracts of the functions outside
STUB(timer, "^hila::timer::st(art|op)\\(")
extern "C" double stub_timer(hila::timer *) { return 0; }
STUB(comm, "^hila::is_comm_initialized\\(")
extern "C" bool stub_comm() { return true; }
STUB(tag, "^get_next_msg_tag\\(")
extern "C" int stub_tag() { tags++; return tag0; }
STUB(exit, "^exit$")
extern "C" void stub_exit(int) { v::ensure(false, "the program does not stop"); __v_stop(); }
STUB(terminate, "^hila::terminate\\(")
extern "C" void stub_terminate(int) {
    v::ensure(false, "the program does not stop");
    __v_stop();
}
STUB(memalloc, "^memalloc\\(")
extern "C" void *stub_memalloc(size_t n) { return v::array<double>("memalloc", n / sizeof(double)); }
static int parnow; // parity index of the message in progress
static inline unsigned nsites(const lattice_struct::comm_node_struct &c, int i) { return i == 0 ? c.evensites : i == 1 ? c.oddsites : c.sites; }
static inline size_t offs(const lattice_struct::comm_node_struct &c, int i) { return i == 1 ? c.evensites : 0; }
static int reqindex(MPI_Request *a) {
    for (int i = 0; i < 3; i++) if (a == &S().receive_request[i][D0]) return i;
    return -1;
}
static int sreqindex(MPI_Request *a) {
    for (int i = 0; i < 3; i++) if (a == &S().send_request[i][D0]) return i;
    return -1;
}
STUB(irecv, "^MPI_Irecv$")
extern "C" int stub_irecv(void *buf, int n, MPI_Datatype t, int rank, int tag, MPI_Comm c, MPI_Request *rq) {
    const int i = reqindex(rq);
    const auto &from = L.nn_comminfo[D0].from_node;
    v::ensure(i >= 0, "receive request of this direction");
    if (i < 0) __v_stop();
    v::ensure(!act[i], "no receive in progress on this request");
    v::ensure(!(act[2] | (i == 2 & (act[0] | act[1]))), "no receive in progress to the same halo sites");
    v::ensure(buf == (void *)(S().payload.fieldbuf + from.buffer + offs(from, i)), "receive to the halo of this direction and parity");
    v::ensure(n == (int64_t)nsites(from, i) * (int64_t)sizeof(double), "receive size");
    v::ensure(rank == (int)from.rank, "receive from the neighbour node");
    v::ensure(t == MPI_BYTE, "bytes");
    v::ensure(c == L.mpi_comm_lat, "communicator");
    recvtag = tag; nrecv++;
    act[i] = true; parnow = i;
    return 0;
}
STUB(isend, "^MPI_Isend$")
extern "C" int stub_isend(const void *buf, int n, MPI_Datatype t, int rank, int tag, MPI_Comm c, MPI_Request *rq) {
    const int i = sreqindex(rq);
    const auto &to = L.nn_comminfo[D0].to_node;
    v::ensure(i >= 0, "send request of this direction");
    if (i < 0) __v_stop();
    v::ensure(!sact[i], "no send in progress on this request");
    v::ensure(!(sact[2] | (i == 2 & (sact[0] | sact[1]))), "no send in progress from the same part of the buffer");
    v::ensure(buf == (const void *)(S().send_buffer[D0] + offs(to, i)), "send from the buffer of this direction and parity");
    v::ensure(n == (int64_t)nsites(to, i) * (int64_t)sizeof(double), "send size");
    v::ensure(rank == (int)to.rank, "send to the neighbour node");
    v::ensure(t == MPI_BYTE, "bytes");
    v::ensure(c == L.mpi_comm_lat, "communicator");
    v::ensure(ngather >= 1, "elements were collected before the send");
    v::ensure(call[0].buf == buf, "elements collected to the send buffer");
    v::ensure(call[0].list == to.sitelist + offs(to, i), "elements of the site list of this parity");
    v::ensure(call[0].n == (int)nsites(to, i), "number of elements collected");
    v::ensure(call[0].neg == antiedge(NDIRS - 1 - D0), "values change sign exactly at the antiperiodic edge");
    sendtag = tag; nsend++;
    sact[i] = true;
    return 0;
}
STUB(wait, "^MPI_Wait$")
extern "C" int stub_wait(MPI_Request *rq, MPI_Status *) {
    const int i = reqindex(rq), j = sreqindex(rq);
    v::ensure(i >= 0 || j >= 0, "request of this direction");
    if (i >= 0) {
        v::ensure(act[i], "wait for a receive in progress");
        act[i] = false;
        if (i != 1) cur[0] = true;
        if (i != 0) cur[1] = true;
    } else if (j >= 0) {
        v::ensure(sact[j], "wait for a send in progress");
        sact[j] = false;
    } else
        __v_stop();
    return 0;
}
static void collect(const double *buf, const unsigned *list, int n, bool neg) {
    v::ensure(ngather < 4, "collected at most four times");
    if (ngather >= 4) __v_stop();
    call[ngather].buf = buf; call[ngather].list = list; call[ngather].n = n; call[ngather].neg = neg;
    ngather++;
    // the copies at the local antiperiodic edge
    const auto &s = L.special_boundaries[D0];
    if (neg & (buf == S().payload.fieldbuf + s.offset) & (list == s.move_index)) {
        if (n == (int)s.n_total) lcur[0] = lcur[1] = true;
        else if (n == (int)s.n_even) lcur[0] = true;
    }
    if (neg & (buf == S().payload.fieldbuf + s.offset + s.n_even) & (list == s.move_index + s.n_even) & (n == (int)s.n_odd)) lcur[1] = true;
}
STUB(gather_elements, "^field_storage<double>::gather_elements\\(")
extern "C" void stub_gather_elements(const field_storage<double> *s, double *buf, const unsigned *list, int n, const Lattice) { collect(buf, list, n, false); }
STUB(gather_negated, "^field_storage<double>::gather_elements_negated\\(")
extern "C" void stub_gather_negated(const field_storage<double> *s, double *buf, const unsigned *list, int n, const Lattice) { collect(buf, list, n, true); }
// ---- the invariant of the bookkeeping of one direction
static bool inv() {
    bool ok = true;
    const bool r = needrecv(), s = needsend(), l = antiedge(D0);
    for (int i = 0; i < 3; i++) {
        const bool go = st(i) == GO, done = st(i) == DONE;
        ok = ok & ((st(i) == ND) | go | done);
        ok = ok & (act[i] == (go & r)) & (sact[i] == (go & s));
        ok = ok & !(go & self());
        for (int q = 0; q < 2; q++)
            if (i == q || i == 2) ok = ok & (!done | !r | cur[q]) & (!(done | go) | !l | lcur[q]);
    }
    ok = ok & ((st(2) != GO) | ((st(0) == ND) & (st(1) == ND)));
    ok = ok & ((st(2) != DONE) | ((st(0) != GO) & (st(1) != GO)));
    return ok;
}
static St old[3][NDIRS];
static void setup(int d, bool field = true) {
    D0 = d;
    rank0_block_level_ = 0;
    lattice.set_lattice_pointer(&L);
    L.mynode.parent = &L;
    L.mpi_comm_lat = (MPI_Comm)v::array<double>("comm", 1);
    my_rank = v::range("rank", 0, 1 << 30);
    for (int a = 0; a < NDIM; a++) {
        L.l_size[a] = v::range("L", 1, 1 << 28);
        L.mynode.min[a] = v::range("min", 0, 1 << 28);
        L.mynode.size[a] = v::range("size", 1, 1 << 28);
        v::require(L.mynode.min[a] + L.mynode.size[a] <= L.l_size[a]);
    }
    L.mynode.rank = my_rank;
    // C10: contract of the halo description
    auto &from = L.nn_comminfo[d].from_node, &to = L.nn_comminfo[d].to_node;
    for (auto *c : {&from, &to}) {
        c->rank = v::range("nbrank", 0, 1 << 30);
        c->evensites = v::range("even", 0, 1 << 26);
        c->oddsites = v::range("odd", 0, 1 << 26);
        c->sites = c->evensites + c->oddsites;
        v::require(c->sites * sizeof(double) < 1ull << 31);
        c->buffer = 0;
        c->sitelist = nullptr;
    }
    const size_t vol = v::range("vol", 1, 1 << 30);
    from.buffer = v::range("buffer", 0, 1ll << 31);
    to.sitelist = v::array<unsigned>("sitelist", to.sites);
    v::require((from.rank == my_rank) == (to.rank == my_rank));
    v::require(from.buffer >= vol);
    auto &sb = L.special_boundaries[d];
    sb.n_even = v::range("sbe", 0, 1 << 26);
    sb.n_odd = v::range("sbo", 0, 1 << 26);
    sb.n_total = sb.n_even + sb.n_odd;
    sb.offset = v::range("sboff", 0, 1ll << 31);
    sb.move_index = v::array<unsigned>("move", sb.n_total);
    v::require(sb.offset >= from.buffer + from.sites);
    L.mynode.field_alloc_size = v::range("alloc", 0, (1ll << 32) - 1);
    v::require(sb.offset + sb.n_total <= L.mynode.field_alloc_size);
    f.fs = reinterpret_cast<F::field_struct *>(store);
    S().mylattice.set_lattice_pointer(&L);
    S().payload.fieldbuf = v::array<double>("field", L.mynode.field_alloc_size);
    S().assigned_to = v::range("assigned", 0, 3);
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < NDIRS; k++) S().gather_status_arr[i][k] = old[i][k] = (St)v::range("status", 0, 2);
    for (int k = 0; k < NDIM; k++) S().boundary_condition[k] = S().boundary_condition[NDIRS - 1 - k] = (hila::bc)v::range("bc", 0, 2);
#ifdef FIELD_SHIFT_BUFFERING
    new (&S().shift_buffer) std::vector<F::field_struct::shift_buffer_struct>();
    if (v::any<bool>("shifted")) { S().shift_buffer.reserve(2); S().shift_buffer.emplace_back(); }
#endif
    const bool have = v::any<bool>("have_buffer");
    for (int k = 0; k < NDIRS; k++) S().send_buffer[k] = nullptr;
    if (have) S().send_buffer[d] = v::array<double>("send", to.sites);
    for (int i = 0; i < 3; i++) { act[i] = v::any<bool>("act"); sact[i] = v::any<bool>("sact"); }
    for (int i = 0; i < 2; i++) { cur[i] = v::any<bool>("cur"); lcur[i] = v::any<bool>("lcur"); }
    nrecv = nsend = ngather = tags = 0;
    tag0 = v::range("tag", 100, 500);
    v::require(inv());
}
static bool others_kept() {
    bool ok = true;
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < NDIRS; k++) ok = ok & ((k == D0) | (S().gather_status_arr[i][k] == old[i][k]));
    return ok;
}
#define STUBS "stubs=timer+comm+tag+exit+terminate+memalloc+irecv+isend+wait+gather_elements+gather_negated"
// state of halo parity p for the user: current (1), on the way (2)
static bool ready(int p) { return p == 2 ? (st(2) == DONE) | ((st(0) == DONE) & (st(1) == DONE)) : (st(p) == DONE) | (st(2) == DONE); }
static bool coming(int p) {
    return p == 2 ? (st(2) == GO) | ((st(0) != ND) & (st(1) != ND)) : (st(p) == GO) | (st(2) == GO);
}
static void start(int d, int p) {
    setup(d);
    const Parity par = (Parity)(p + 1);
    const bool was = ready(p), on = !was & coming(p), r = needrecv(), s = needsend();
    const int m = f.start_gather((Direction)d, par);
    v::ensure(inv(), "state of the halo is sound");
    v::ensure(others_kept(), "other directions keep their state");
    v::ensure(tags == 1, "every start takes one message tag");
    v::ensure(ready(p) | coming(p), "after start the halo is current or on the way");
    v::ensure(!was | ((m == 0) & (nrecv == 0) & (nsend == 0) & ready(p)), "nothing is sent when the halo is current");
    v::ensure(!on | ((nrecv == 0) & (nsend == 0)), "nothing is sent twice");
    v::ensure(!self() | ((nrecv == 0) & (nsend == 0) & ready(p)), "no message to the own node");
    v::ensure(was | on | self() | ((nrecv == 1) == r), "receive posted");
    v::ensure(was | on | self() | ((nsend == 1) == s), "send posted");
    v::ensure((nrecv == 0) | (recvtag == tag0), "tag of the receive");
    v::ensure((nsend == 0) | (sendtag == tag0), "tag of the send");
    v::ensure((m == 0) == ready(p), "mask tells what to wait for");
    v::ensure((m == 0) | (m == 1 << d), "bit of the direction");
}
static void wait(int d, int p) {
    setup(d);
    v::require(ready(p) | coming(p));
    f.wait_gather((Direction)d, (Parity)(p + 1));
    v::ensure(inv(), "state of the halo is sound");
    v::ensure(others_kept(), "other directions keep their state");
    v::ensure(ready(p), "after wait the halo is current");
    v::ensure((nrecv == 0) & (nsend == 0), "wait sends nothing");
}
static void changed(int d, int p) {
    setup(d);
    // other directions behave alike: no messages in progress there
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < NDIRS; k++) v::require((k == D0) | (S().gather_status_arr[i][k] != GO));
    const unsigned was = S().assigned_to;
    f.mark_changed((Parity)(p + 1));
    for (int q = 0; q < 2; q++) {
        // sites of parity q feed the halo of the other parity
        if (p == 2 || p == q) {
            v::ensure(!act[1 - q] & !act[2] & !sact[1 - q] & !sact[2], "no outdated message is on the way");
            cur[1 - q] = lcur[1 - q] = false;
            const bool hn = needrecv() | antiedge(d);
            v::ensure(!hn | (!ready(1 - q) & !ready(2)), "changed sites make the halo of their neighbours out of date");
        }
    }
    v::ensure(inv(), "state of the halo is sound");
#ifdef FIELD_SHIFT_BUFFERING
    v::ensure(S().shift_buffer.size() == 0, "shifted copies of the old values are dropped");
#endif
    v::ensure(S().assigned_to == (was | (unsigned)(p + 1)), "assigned parities");
    for (int k = 0; k < NDIRS; k++) {
        v::ensure((p != 2) | ((S().gather_status_arr[0][k] == ND) & (S().gather_status_arr[1][k] == ND) & (S().gather_status_arr[2][k] == ND)), "all directions are out of date");
        v::ensure((p == 2) | ((S().gather_status_arr[1 - (p & 1)][k] == ND) & (S().gather_status_arr[2][k] == ND)), "all directions of the parity are out of date");
    }
}
// ---- element copies: arbitrary element w of the list
static unsigned n_list, w;
static size_t n_field, u;
static double *fld, *buf, uold;
static unsigned *lst;
static bool hasneg;
static void lists() {
    lattice.set_lattice_pointer(&L);
    n_field = v::range("n_field", 1, (1ll << 32) - 1);
    n_list = v::range("n_list", 0, (1ll << 31) - 1);
    w = v::range("w", 0, (1ll << 31) - 1);
    u = v::range("u", 0, (1ll << 32) - 1);
    v::require(w < n_list);
    v::require(u < n_field);
    fld = v::array<double>("field", n_field);
    buf = v::array<double>("buffer", n_list);
    lst = v::array<unsigned>("list", n_list);
    v::require(lst[w] < n_field);
    uold = fld[u];
}
static void in_list(unsigned j) { v::define((j < n_list) & (lst[j] < n_field)); }
static void gather_at(unsigned j, double sign) {
    in_list(j);
    v::inv((w >= j) | (buf[w] == sign * fld[lst[w]]), "element copied");
}
void verif_inv_gather_elements(unsigned j) { gather_at(j, 1); }
void verif_inv_gather_negated(unsigned j) { gather_at(j, -1); }
// list entries are distinct; u is a site outside the list
void verif_inv_place_elements(unsigned j) {
    in_list(j);
    v::define(((j == w) | (lst[j] != lst[w])) & (lst[j] != u));
    v::inv((w >= j) | (fld[lst[w]] == buf[w]), "element stored");
    v::inv(fld[u] == uold, "others kept");
}
static field_storage<double> &storage() {
    static char c[sizeof(field_storage<double>)];
    auto &s = *reinterpret_cast<field_storage<double> *>(c);
    s.fieldbuf = fld;
    return s;
}
static Lattice lat0() { Lattice l; l.set_lattice_pointer(&L); return l; }
static void copies(int k) {
    lists();
    auto &s = storage();
    if (k == 0) { s.gather_elements(buf, lst, n_list, lat0()); v::eq(buf[w], fld[lst[w]], "element j of the buffer is the field at entry j of the list"); }
    else if (k == 1) { s.gather_elements_negated(buf, lst, n_list, lat0()); v::eq(buf[w], -fld[lst[w]], "element j of the buffer is minus the field at entry j of the list"); }
    else { v::require(lst[w] != u); s.place_elements(buf, lst, n_list, lat0()); v::eq(fld[lst[w]], buf[w], "field at entry j of the list is element j of the buffer"); }
    v::eq(fld[u], uold, "no other site is changed");
}
// ---- boundary conditions: both directions, neighbour tables, halo out of date
static int nset;
STUB(get_neighbour_array, "^lattice_struct::get_neighbour_array\\(")
extern "C" const unsigned *stub_get_neighbour_array(lattice_struct *l, Direction d, hila::bc b) { return L.neighb[d] + (int)b; }
static void set_bc(int d) {
    setup(d);
    for (int i = 0; i < 3; i++)
        for (int k = 0; k < NDIRS; k++) v::require((k == D0) | (S().gather_status_arr[i][k] != GO));
    for (int k = 0; k < NDIRS; k++) { L.neighb[k] = v::array<unsigned>("neighb", 8); S().neighbours[k] = L.neighb[k] + 5; }
    hila::bc o[NDIRS];
    for (int k = 0; k < NDIRS; k++) o[k] = S().boundary_condition[k];
    const auto b = (hila::bc)v::range("newbc", 0, 2);
    if (v::any<bool>("opposite")) f.set_boundary_condition((Direction)(NDIRS - 1 - d), b);
    else f.set_boundary_condition((Direction)d, b);
    for (int k = 0; k < NDIRS; k++) {
        const bool ax = k == d || k == NDIRS - 1 - d;
        v::ensure(S().boundary_condition[k] == (ax ? b : o[k]), "boundary condition of both directions of the axis, no other");
        v::ensure(S().neighbours[k] == (ax ? L.neighb[k] + (int)b : L.neighb[k] + 5), "neighbour tables follow the boundary condition");
        for (int i = 0; i < 3; i++) v::ensure(S().gather_status_arr[i][k] == ND, "all halos are out of date");
    }
    v::ensure(!act[0] & !act[1] & !act[2] & !sact[0] & !sact[1] & !sact[2], "no message on the way is forgotten");
    v::ensure(f.get_boundary_condition((Direction)d) == b, "boundary condition is reported");
}
// the receiving node is on the upper edge exactly if the sending node is on the lower edge: both skip or both do the message
static void edges(int d) {
    setup(d);
    lattice_struct::node_struct snd;
    for (int a = 0; a < NDIM; a++) {
        snd.min[a] = v::range("smin", 0, 1 << 28);
        snd.size[a] = v::range("ssize", 1, 1 << 28);
        v::require(snd.min[a] + snd.size[a] <= L.l_size[a]);
    }
    snd.parent = &L;
    // C09/C10: the neighbour of the outer plane lies in the sender's box, which does not overlap ours
    const int a = d < NDIM ? d : NDIRS - 1 - d;
    const auto &m = L.mynode;
    v::require(d < NDIM ? snd.min[a] == (m.min[a] + m.size[a] == L.l_size[a] ? 0 : m.min[a] + m.size[a])
                        : snd.min[a] + snd.size[a] == (m.min[a] == 0 ? L.l_size[a] : m.min[a]));
    v::ensure(m.is_on_edge((Direction)d) == edge(d), "edge of the lattice");
    v::ensure(m.is_on_edge((Direction)d) == snd.is_on_edge(-(Direction)d), "sender and receiver agree on the edge");
    v::ensure(f.boundary_need_to_communicate((Direction)d) == needcomm(d), "messages are skipped only at a Dirichlet edge");
}
#else
static void copies(int) { comms_world(); }
static void set_bc(int) { comms_world(); }
static void edges(int) { comms_world(); }
static void start(int, int) { comms_world(); }
static void wait(int, int) { comms_world(); }
static void changed(int, int) { comms_world(); }
#define STUBS ""
#endif
PROOF(field_setup, STUBS) {
#ifdef REPLAY
    comms_world();
#else
    setup(0);
    for (int k = 0; k < NDIRS; k++) L.neighb[k] = v::array<unsigned>("neighb", 8);
    auto *s = new F::field_struct();
    for (int k = 0; k < NDIRS; k++) {
        for (int i = 0; i < 3; i++) v::ensure(s->gather_status_arr[i][k] == ND, "a new field has no current halo");
        v::ensure(s->neighbours[k] == L.neighb[k], "neighbour table of the lattice");
        v::ensure(s->boundary_condition[k] == hila::bc::PERIODIC, "periodic by default");
        v::ensure(s->send_buffer[k] == nullptr, "no send buffer");
    }
    v::ensure(s->assigned_to == 0, "not assigned");
    v::ensure(s->mylattice.ptr() == &L, "lattice of the field");
    v::ensure(s->payload.fieldbuf != nullptr, "storage");
    const size_t i = v::range("site", 0, (1ll << 32) - 1);
    v::require(i < L.mynode.field_alloc_size);
    s->payload.fieldbuf[i] = 1; // inside the allocation
    v::cover("site");
#endif
}
PROOF(gather_elements, "stubs=memalloc") { copies(0); }
PROOF(gather_elements_negated, "stubs=memalloc") { copies(1); }
PROOF(place_elements, "stubs=memalloc") { copies(2); }
#ifndef REPLAY
#define BCSTUBS STUBS "+get_neighbour_array"
#else
#define BCSTUBS ""
#endif
// in more than 2 dimensions one upward and one downward direction in the quick tier, all in the thorough tier
#define P1(k, T) \
    PROOF(set_bc_##k, T " " BCSTUBS) { set_bc(k); } \
    PROOF(edges_##k, STUBS) { edges(k); } \
    PROOF(start_##k##_even, T " " STUBS) { start(k, 0); } \
    PROOF(start_##k##_odd, T " " STUBS) { start(k, 1); } \
    PROOF(start_##k##_all, T " " STUBS) { start(k, 2); } \
    PROOF(wait_##k##_even, T " " STUBS) { wait(k, 0); } \
    PROOF(wait_##k##_odd, T " " STUBS) { wait(k, 1); } \
    PROOF(wait_##k##_all, T " " STUBS) { wait(k, 2); } \
    PROOF(changed_##k##_even, T " " STUBS) { changed(k, 0); } \
    PROOF(changed_##k##_odd, T " " STUBS) { changed(k, 1); } \
    PROOF(changed_##k##_all, T " " STUBS) { changed(k, 2); }
#define LATER "tier=thorough"
#if NDIM == 2
P1(0, "")
P1(1, "")
P1(2, "")
P1(3, "")
#elif NDIM == 3
P1(0, LATER)
P1(1, LATER)
P1(2, "")
P1(3, LATER)
P1(4, "")
P1(5, LATER)
#elif NDIM == 4
P1(0, LATER)
P1(1, LATER)
P1(2, LATER)
P1(3, "")
P1(4, LATER)
P1(5, LATER)
P1(6, "")
P1(7, LATER)
#endif
