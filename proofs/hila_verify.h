// Declarations of the in-place loop hooks of /repo (force-included; guard HILA_VERIFY).
#ifndef HILA_VERIFY_H_
#define HILA_VERIFY_H_
#include <cstddef>
#include <cstdint>
template <typename T> class CoordinateVector_t;
void verif_inv_node_coordinates(unsigned i, const CoordinateVector_t<int> &l);
void verif_inv_node_divisors(int dir, int i, int n);
void verif_inv_node_divisors_fill(int dir, int i, int n);
void verif_inv_gather_count(int d, size_t i, size_t from_even, size_t from_odd, size_t to_even, size_t to_odd, unsigned from_rank, unsigned to_rank);
void verif_inv_gather_lists(int d, size_t i, size_t from_even, size_t from_odd, size_t to_even, size_t to_odd);
void verif_inv_wait_arrays(size_t i);
void verif_inv_boundary_count(int d, unsigned i);
void verif_inv_boundary_array(int d, int i, int k, int offs);
void verif_inv_remap_blocks(int nblocks, const CoordinateVector_t<int> &blocksize, const CoordinateVector_t<int> &blockdivs);
void verif_inv_remap_fill(int i, int nblocks, const CoordinateVector_t<int> &blocksize, const CoordinateVector_t<int> &blockdivs);
void verif_inv_layout_factor(int n, int i, const int *nfactors);
void verif_inv_layout_ghost(int d, int64_t n, int64_t cosize, int nn);
void verif_inv_layout_divide(int n, int i, int mdir, const int *nfactors, const CoordinateVector_t<int> &nsize, const CoordinateVector_t<int> &nodesiz);
void verif_inv_layout_print(int i);
void verif_inv_gather_elements(unsigned j);
void verif_inv_gather_negated(unsigned j);
void verif_inv_place_elements(unsigned j);
void verif_inv_heatbath_kp(int k, int test, double d, double al);
void verif_inv_heatbath_creutz(int k, int test, double a0, double al, double xl, double xd);
void verif_inv_su2_kp(int nloops);
#endif
