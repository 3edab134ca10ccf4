// Analysis unit: the cell ranges of a radius layer.
#include <new>
#include <hypergirgs/RadiusLayer.h>
using namespace hypergirgs;
extern "C" {
void vh_layer_ctor(RadiusLayer* mem, unsigned lvl, const Point* base, const unsigned* pre) { new (mem) RadiusLayer(0.5, 1.5, lvl, base, pre); }
int vh_layer_count(const RadiusLayer* l, unsigned c, unsigned lvl) { return l->pointsInCell(c, lvl); }
const Point* vh_layer_kth(const RadiusLayer* l, unsigned c, unsigned lvl, int k) { return &l->kthPoint(c, lvl, k); }
const Point* vh_layer_begin(const RadiusLayer* l, unsigned c, unsigned lvl) { return l->cellIterators(c, lvl).first; }
const Point* vh_layer_end(const RadiusLayer* l, unsigned c, unsigned lvl) { return l->cellIterators(c, lvl).second; }
unsigned long vh_node_size() { return sizeof(Point); }
unsigned vh_pbl(double r1, double r2, double R) { return RadiusLayer::partitioningBaseLevel(r1, r2, R); }
}
