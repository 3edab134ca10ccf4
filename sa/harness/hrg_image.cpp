// Analysis unit: constructors of the types the hyperbolic tree is made of.
#include <new>
#include <hypergirgs/RadiusLayer.h>
#include <hypergirgs/DistanceFilter.h>
#include <hypergirgs/HyperbolicTree.h>
using namespace hypergirgs;
struct VhCallback { void operator()(int, int, int) {} };
using VhFilter = VH_FILTER;

extern "C" {
void vh_layer_image(RadiusLayer* mem, double rmin, double rmax, unsigned lvl, const Point* base, const unsigned* pre) { new (mem) RadiusLayer(rmin, rmax, lvl, base, pre); }
void vh_point_image(Point* mem, int id, double r, double phi, int cell) { new (mem) Point(id, r, phi, cell); }
void vh_filter_image(VhFilter* mem, double p, double R, double T) { new (mem) VhFilter(p, R, T); }
}
