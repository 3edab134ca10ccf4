// Analysis unit: the public geometric helpers of girgs for one dimension VH_D.
#include <new>
#include <string>
#include <array>
#include <girgs/Node.h>
#include <girgs/Helper.h>
#include <girgs/BitManipulation.h>
#include <girgs/SpatialTreeCoordinateHelper.h>
#include <girgs/WeightLayer.h>
using namespace girgs;
using H = SpatialTreeCoordinateHelper<VH_D>;
using N = Node<VH_D>;

extern "C" {
double vh_node_dist(const N* a, const N* b) { return a->distance(*b); }
const double* vh_node_coord(const N* a, int d) { return &a->coord[d]; }
const double* vh_node_weight(const N* a) { return &a->weight; }
const int* vh_node_index(const N* a) { return &a->index; }
const int* vh_node_cell(const N* a) { return &a->cell_id; }
void vh_node_ctor(N* mem, const std::vector<double>& c, double w, int i, int cell) { new (mem) N(c, w, i, cell); }
unsigned long vh_node_size() { return sizeof(N); }
double vh_pow(double x) { return pow_to_the<VH_D>(x); }

unsigned vh_numchildren() { return H::numChildren(); }
unsigned vh_numcells(unsigned l) { return H::numCellsInLevel(l); }
unsigned vh_firstcell(unsigned l) { return H::firstCellOfLevel(l); }
unsigned vh_parent(unsigned c) { return H::parent(c); }
unsigned vh_child1(unsigned c) { return H::firstChild(c); }
unsigned vh_childn(unsigned c) { return H::lastChild(c); }
unsigned vh_celloflevel(unsigned c) { return H::cellOfLevel(c); }
bool vh_touching(unsigned a, unsigned b, unsigned l) { return H::touching(a, b, l); }
double vh_dist(unsigned a, unsigned b, unsigned l) { return H::dist(a, b, l); }
void vh_bounds(unsigned c, unsigned l, double* out) {
    auto b = H::bounds(c, l);
    for (unsigned d = 0; d < VH_D; ++d) { out[2 * d] = b[d].first; out[2 * d + 1] = b[d].second; } }
unsigned vh_cellforpoint(const std::array<double, VH_D>* p, unsigned l) { return H::cellForPoint(*p, l); }

unsigned vh_deposit(const std::array<uint32_t, VH_D>* c) { return BitManipulation<VH_D>::deposit(*c); }
void vh_extract(unsigned cell, std::array<uint32_t, VH_D>* out) {
    auto r = BitManipulation<VH_D>::extract(cell);
    for (unsigned d = 0; d < VH_D; ++d) (*out)[d] = r[d]; }

struct VhLayer : WeightLayer<VH_D> { using WeightLayer<VH_D>::WeightLayer; };
void vh_layer_ctor(VhLayer* mem, unsigned lvl, const N* base, const unsigned* pre) { new (mem) VhLayer(lvl, base, pre); }
int vh_layer_count(const WeightLayer<VH_D>* l, unsigned c, unsigned lvl) { return l->pointsInCell(c, lvl); }
const N* vh_layer_kth(const WeightLayer<VH_D>* l, unsigned c, unsigned lvl, int k) { return &l->kthPoint(c, lvl, k); }
const N* vh_layer_begin(const WeightLayer<VH_D>* l, unsigned c, unsigned lvl) { return l->cellIterators(c, lvl).first; }
const N* vh_layer_end(const WeightLayer<VH_D>* l, unsigned c, unsigned lvl) { return l->cellIterators(c, lvl).second; }
}
