// Native oracle: every rank of a small lattice in one process with recorded messages instead of MPI.
#ifndef COMMS_WORLD_H_
#define COMMS_WORLD_H_
#include <deque>
#include <cstring>
namespace cw {
struct Msg { int src, dst, tag; std::vector<char> data; };
struct Recv { void *buf; int n, src, dst, tag; bool on; };
struct Net {
    std::deque<Msg> msgs;
    std::map<MPI_Request *, Recv> recvs;
    std::map<MPI_Request *, std::pair<const void *, std::vector<char>>> sends;
    std::map<int, int> tag;
};
static Net net;
static void fail(const char *w) { v::ensure(false, w); }
}
int get_next_msg_tag() { return 100 + (cw::net.tag[lat::my_rank]++ % 400); }
namespace hila {
bool is_comm_initialized() { return true; }
double timer::start() { return 0; }
double timer::stop() { return 0; }
void timer::init(const char *) {}
void timer::remove() {}
}
hila::timer start_send_timer, wait_send_timer, post_receive_timer, wait_receive_timer, drop_comms_timer;
int rank0_block_level_ = 0;
extern "C" {
int MPI_Irecv(void *b, int n, MPI_Datatype, int src, int tag, MPI_Comm, MPI_Request *r) {
    auto &q = cw::net.recvs[r];
    if (q.on) cw::fail("receive posted on a request in use");
    if (src < 0 || src >= lat::n_ranks) cw::fail("receive from a rank that does not exist");
    q = {b, n, src, lat::my_rank, tag, true};
    return 0;
}
int MPI_Isend(const void *b, int n, MPI_Datatype, int dst, int tag, MPI_Comm, MPI_Request *r) {
    if (cw::net.sends.count(r)) cw::fail("send posted on a request in use");
    if (dst < 0 || dst >= lat::n_ranks) cw::fail("send to a rank that does not exist");
    std::vector<char> d((const char *)b, (const char *)b + n);
    cw::net.sends[r] = {b, d};
    cw::net.msgs.push_back({lat::my_rank, dst, tag, d});
    return 0;
}
int MPI_Wait(MPI_Request *r, MPI_Status *) {
    auto s = cw::net.sends.find(r);
    if (s != cw::net.sends.end()) {
        if (s->second.second.size() && memcmp(s->second.first, s->second.second.data(), s->second.second.size())) cw::fail("send buffer changed before the send completed");
        cw::net.sends.erase(s);
        return 0;
    }
    auto it = cw::net.recvs.find(r);
    if (it == cw::net.recvs.end() || !it->second.on) cw::fail("wait for a request that is not in use");
    auto &q = it->second;
    for (auto m = cw::net.msgs.begin(); m != cw::net.msgs.end(); ++m)
        if (m->src == q.src && m->dst == q.dst && m->tag == q.tag) {
            if ((int)m->data.size() != q.n) cw::fail("message size differs from the receive");
            if (q.n) memcpy(q.buf, m->data.data(), q.n);
            q.on = false;
            cw::net.msgs.erase(m);
            return 0;
        }
    cw::fail("deadlock: no message for the receive");
    return 0;
}
}
namespace cw {
typedef Field<double> F;
struct Fields {
    World w;
    std::vector<F> f;
    std::map<int64_t, double> val; // current value of every site
    ~Fields() {
        for (int r = 0; r < (int)f.size(); r++) {
            w.use(r);
            auto &s = *f[r].fs;
            for (int d = 0; d < NDIRS; d++) if (s.send_buffer[d]) { ::free(s.send_buffer[d]); s.send_buffer[d] = nullptr; }
            ::free(s.payload.fieldbuf); s.payload.fieldbuf = nullptr;
            ::operator delete(f[r].fs);
            f[r].fs = nullptr;
        }
        f.clear();
        lattice.set_lattice_pointer(nullptr);
    }
};
static bool sites_of(Parity p, const CoordinateVector &c) { return p == ALL || c.parity() == p; }
// a random history of assignments, starts and waits, the same on every rank; the halo must be current after a wait
static void history() {
    net = Net();
    Fields S;
    if (!any_world(S.w, 400)) return;
    S.w.gathers();
    auto &w = S.w;
    bool odd = false;
    hila::bc bc[NDIM];
    for (int d = 0; d < NDIM; d++) { odd = odd || w.size[d] % 2; bc[d] = v::range("antiperiodic", 0, 3) == 0 ? hila::bc::ANTIPERIODIC : hila::bc::PERIODIC; if (v::range("dirichlet", 0, 9) == 0) bc[d] = hila::bc::DIRICHLET; }
    S.f.resize(w.n);
    for (int r = 0; r < w.n; r++) {
        w.use(r);
        S.f[r].fs = new (::operator new(sizeof(F::field_struct))) F::field_struct();
        for (int d = 0; d < NDIM; d++) S.f[r].set_boundary_condition((Direction)d, bc[d]);
        for (int d = 0; d < NDIM; d++) v::ensure(S.f[r].get_boundary_condition((Direction)d) == bc[d] && S.f[r].get_boundary_condition(-(Direction)d) == bc[d], "boundary condition");
    }
    auto write = [&](Parity p) {
        for (int r = 0; r < w.n; r++) {
            auto &l = w.use(r);
            for (unsigned i = 0; i < l.mynode.volume; i++) {
                CoordinateVector c = l.coordinates(i);
                if (!sites_of(p, c)) continue;
                S.f[r].fs->payload.fieldbuf[i] = S.val[w.index(c)];
            }
            S.f[r].mark_changed(p);
        }
    };
    double ver = 1;
    auto fresh = [&](Parity p) {
        ver += 1000;
        for (int r = 0; r < w.n; r++) { auto &l = w.use(r); for (unsigned i = 0; i < l.mynode.volume; i++) { CoordinateVector c = l.coordinates(i); if (sites_of(p, c)) S.val[w.index(c)] = ver + w.index(c); } }
        write(p);
    };
    fresh(ALL);
    auto par = [&](const char *n) { return odd ? ALL : (Parity)(v::range(n, 1, 3)); };
    auto check = [&](int d, Parity p) {
        const int a = World::axis(d);
        for (int r = 0; r < w.n; r++) {
            auto &l = w.use(r);
            v::ensure(S.f[r].is_gathered(d, p), "after wait the halo is current");
            for (unsigned i = 0; i < l.mynode.volume; i++) {
                CoordinateVector c = l.coordinates(i);
                if (!sites_of(p, c)) continue;
                const bool out = c[a] == (d < NDIM ? w.size[a] - 1 : 0);
                if (out && bc[a] == hila::bc::DIRICHLET) continue;
                const double e = S.val[w.index(w.nb(c, d))] * (out && bc[a] == hila::bc::ANTIPERIODIC ? -1 : 1);
                const unsigned k = S.f[r].fs->neighbours[d][i];
                v::ensure(k < l.mynode.field_alloc_size, "neighbour index inside the field");
                v::eq(S.f[r].fs->payload.fieldbuf[k], e, "value of the neighbour after a gather");
            }
        }
    };
    const int steps = v::range("steps", 1, 14);
    std::vector<std::pair<int, Parity>> pend;
    for (int t = 0; t < steps; t++) {
        const int op = v::range("op", 0, 6);
        if (op == 6) { // change of a boundary condition, also with gathers on the way
            const int d = v::range("bcdir", 0, NDIRS - 1);
            const hila::bc b = (hila::bc)v::range("bc", 0, 2);
            for (int r = 0; r < w.n; r++) { w.use(r); S.f[r].set_boundary_condition((Direction)d, b); v::ensure(S.f[r].get_boundary_condition((Direction)d) == b, "boundary condition is reported"); }
            bc[World::axis(d)] = b;
            pend.clear();
            continue;
        }
        if (op == 0) { pend.clear(); fresh(par("written")); }
        else if (op <= 3 || pend.empty()) {
            const int d = v::range("dir", 0, NDIRS - 1);
            const Parity p = par("parity");
            dir_mask_t m0 = 0;
            for (int r = 0; r < w.n; r++) { w.use(r); const dir_mask_t m = S.f[r].start_gather((Direction)d, p); v::ensure(m == 0 || m == (dir_mask_t)(1 << d), "mask of the direction"); if (m == 0) v::ensure(S.f[r].is_gathered(d, p), "no wait only if the halo is current"); m0 |= m; }
            pend.push_back({d, p});
        } else {
            const int k = v::range("which", 0, 13) % pend.size();
            const auto q = pend[k];
            pend.erase(pend.begin() + k);
            for (int r = 0; r < w.n; r++) { w.use(r); S.f[r].wait_gather((Direction)q.first, q.second); }
            check(q.first, q.second);
        }
    }
    for (auto &q : pend) {
        for (int r = 0; r < w.n; r++) { w.use(r); S.f[r].wait_gather((Direction)q.first, q.second); }
        check(q.first, q.second);
    }
    for (int r = 0; r < w.n; r++) { w.use(r); S.f[r].mark_changed(ALL); }
    for (auto &q : net.recvs) v::ensure(!q.second.on, "no receive is left open");
    v::ensure(net.sends.empty(), "no send is left open");
    v::ensure(net.msgs.empty(), "no message is left over");
}
}
static void comms_world() { cw::history(); }
#endif
