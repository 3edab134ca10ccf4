// Analysis unit: the GIRG sampler as a library user instantiates it (README, "callback" API).
#include <new>
#include <vector>
#include <girgs/Generator.h>
#include <girgs/SpatialTree.h>

extern "C" void vh_cb(int u, int v, int tid);
struct VhCallback { void operator()(int u, int v, int tid) { vh_cb(u, v, tid); } };

#define VH(D) \
extern "C" void vh_girg_ctor_##D(girgs::SpatialTree<D, VhCallback>* mem, const std::vector<double>& weights, \
        const std::vector<std::vector<double>>& positions, double alpha, VhCallback& cb, bool profile) { \
    new (mem) girgs::SpatialTree<D, VhCallback>(weights, positions, alpha, cb, profile); } \
extern "C" void vh_girg_gen_##D(girgs::SpatialTree<D, VhCallback>* tree, int seed) { tree->generateEdges(seed); }

#ifndef VH_D
VH(1) VH(2) VH(3) VH(4) VH(5)
#else
VH(VH_D)
#endif
