// Analysis unit: the HRG sampler as a library user instantiates it (README, "callback" API).
#include <new>
#include <vector>
#include <hypergirgs/Generator.h>
#include <hypergirgs/HyperbolicTree.h>

extern "C" void vh_cb(int u, int v, int tid);
struct VhCallback { void operator()(int u, int v, int tid) { vh_cb(u, v, tid); } };
using VhTree = hypergirgs::HyperbolicTree<VhCallback>;

extern "C" void vh_hrg_ctor(VhTree* mem, const std::vector<double>& radii, const std::vector<double>& angles,
        double T, double R, VhCallback& cb, bool profile) { new (mem) VhTree(radii, angles, T, R, cb, profile); }
extern "C" void vh_hrg_gen(const VhTree* tree, int seed) { tree->generate(seed); }
