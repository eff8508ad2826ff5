// C09: division of the lattice to the nodes (bounded stand-in: exhaustive native runs, see DESIGN.md)
#include "lat.h"
#include "plumbing/lattice.cpp"
#include "plumbing/map_node_layout.cpp"
#include "plumbing/setup_layout_generic.cpp"
using namespace lat;
#ifdef REPLAY
static void one_layout(const int *size, int N) {
    lattice_struct *l = new lattice_struct;
    lattice.set_lattice_pointer(l);
    l->l_volume = 1;
    for (int d = 0; d < NDIM; d++) {
        l->l_size[d] = size[d];
        l->l_volume *= size[d];
        v_rt::notei("size", size[d]);
    }
    v_rt::notei("nodes", N);
    lat::n_ranks = N;
    bool done = true;
    try { l->setup_layout(); } catch (v_rt::Reject &) { done = false; }
    if (done) {
        int64_t p = 1;
        for (int d = 0; d < NDIM; d++) {
            auto &D = l->nodes.divisors[d];
            int n = l->nodes.n_divisions[d];
            v::ensure(l->l_size[d] == size[d], "lattice size unchanged");
            v::ensure(n >= 1 && D.size() == (size_t)n + 1 && D[0] == 0 && D[n] == (unsigned)size[d], "divisors span the lattice");
            for (int k = 0; k < n; k++) v::ensure(D[k] < D[k + 1], "every node has sites");
            p *= n;
        }
        v::ensure(p == N && l->nodes.number == N, "the divisions multiply to the number of nodes");
        for (int i = 0; i < N; i++) v::ensure(l->nodes.inverse_remap(l->nodes.remap(i)) == i, "rank map");
        for (int me = 0; me < N && l->l_volume <= 600; me += 1 + me) {
            lat::my_rank = me;
            l->setup_nodes();
            node_info ni = l->nodes.nodeinfo(me);
            v::ensure(l->mynode.min == ni.min && l->mynode.size == ni.size && l->mynode.rank == me, "this node's box");
            int64_t vol = 1;
            for (int d = 0; d < NDIM; d++) vol *= ni.size[d];
            v::ensure((int64_t)l->mynode.volume == vol && (int64_t)l->mynode.coordinates.size() == vol, "volume of this node");
            for (unsigned i = 0; i < l->mynode.coordinates.size(); i++) {
                auto &c = l->mynode.coordinates[i];
                v::ensure(l->is_on_mynode(c) && l->node_rank(c) == me && l->site_index(c) == i, "sites of this node");
            }
        }
        free(l->nodes.map_array);
        free(l->nodes.map_inverse);
    }
    // division without uneven nodes exists along x
    if (size[0] % N == 0 && size[0] / N >= 2 && NDIM == 1) v::ensure(done, "layout found");
    v_rt::log.clear();
    delete l;
}
#endif
PROOF(all_layouts, "bounded limit=300") {
#ifdef REPLAY
    const int M = NDIM == 1 ? 64 : NDIM == 2 ? 20 : NDIM == 3 ? 9 : 6, P = NDIM <= 2 ? 64 : 32;
    int size[NDIM];
    int64_t cases = 1;
    for (int d = 0; d < NDIM; d++) cases *= M;
    for (int64_t c = 0; c < cases; c++) {
        int64_t j = c;
        for (int d = 0; d < NDIM; d++) { size[d] = 1 + j % M; j /= M; }
        for (int N = 1; N <= P; N++) one_layout(size, N);
    }
#endif
}
