// Native oracle: all ranks of a small divided lattice in one process, set up by the real code.
#ifndef WORLD_H_
#define WORLD_H_
#ifdef REPLAY
#include <map>
#include <memory>
struct World {
    std::vector<lattice_struct *> node; // one lattice_struct per rank
    int n = 0;
    int64_t vol = 1;
    bool gathered = false;
    CoordinateVector size;
    // every node of the lattice; false if the division is not possible
    bool setup(const int *sz, const int *nd) {
        int64_t N = 1;
        for (int d = 0; d < NDIM; d++) { N *= nd[d]; vol *= sz[d]; size[d] = sz[d]; if (nd[d] > sz[d]) return false; }
        n = lat::n_ranks = N;
        for (int r = 0; r < n; r++) {
            lattice_struct *l = new lattice_struct;
            node.push_back(l);
            lattice.set_lattice_pointer(l);
            lat::my_rank = r;
            l->l_volume = vol;
            for (int d = 0; d < NDIM; d++) { l->l_size[d] = sz[d]; l->nodes.n_divisions[d] = nd[d]; l->nodes.divisors[d].clear(); }
            l->nodes.number = n;
            l->setup_node_divisors();
            l->nodes.create_remap();
            l->setup_nodes();
        }
        return true;
    }
    void gathers() {
        gathered = true;
        for (int r = 0; r < n; r++) {
            use(r);
            node[r]->create_std_gathers();
            node[r]->initialize_wait_arrays();
#ifdef SPECIAL_BOUNDARY_CONDITIONS
            node[r]->init_special_boundaries();
#endif
        }
    }
    lattice_struct &use(int r) { lat::my_rank = r; lattice.set_lattice_pointer(node[r]); return *node[r]; }
    int owner(const CoordinateVector &c) {
        for (int r = 0; r < n; r++) if (inside(r, c)) return r;
        return -1;
    }
    bool inside(int r, const CoordinateVector &c) {
        bool in = true;
        for (int d = 0; d < NDIM; d++) in = in && c[d] >= node[r]->mynode.min[d] && c[d] < node[r]->mynode.min[d] + node[r]->mynode.size[d];
        return in;
    }
    static int axis(int d) { return d < NDIM ? d : NDIRS - 1 - d; }
    CoordinateVector nb(const CoordinateVector &c, int d) {
        CoordinateVector r = c;
        const int a = axis(d);
        r[a] = ((r[a] + (d < NDIM ? 1 : -1)) % size[a] + size[a]) % size[a];
        return r;
    }
    int64_t index(const CoordinateVector &c) {
        int64_t i = 0;
        for (int d = NDIM - 1; d >= 0; d--) i = i * size[d] + c[d];
        return i;
    }
    ~World() {
        for (auto *l : node) {
            free(l->nodes.map_array); free(l->nodes.map_inverse);
            if (gathered) {
                free(l->wait_arr_);
                for (int d = 0; d < NDIRS; d++) {
                    free(l->neighb[d]);
                    free(l->nn_comminfo[d].to_node.sitelist);
#ifdef SPECIAL_BOUNDARY_CONDITIONS
                    if (l->special_boundaries[d].neighbours) { free(l->special_boundaries[d].neighbours); free(l->special_boundaries[d].move_index); }
#endif
                }
            }
            delete l;
        }
    }
};
// a random small world
inline bool any_world(World &w, int64_t maxvol = 4000) {
    int sz[NDIM], nd[NDIM];
    int64_t V = 1, N = 1;
    for (int d = 0; d < NDIM; d++) {
        sz[d] = v::range("L", 1, NDIM > 3 ? 6 : NDIM > 2 ? 9 : 23);
        nd[d] = v::range("ndiv", 1, 5);
        V *= sz[d]; N *= nd[d];
        v::require(nd[d] <= sz[d]);
    }
    v::require(V <= maxvol && N <= 36);
    return w.setup(sz, nd);
}
#endif
#endif
