// Analysis unit: the public geometric helpers of hypergirgs, composed the way a user (and the sampler) composes them.
#include <new>
#include <hypergirgs/Point.h>
#include <hypergirgs/AngleHelper.h>
#include <hypergirgs/DistanceFilter.h>
#include <hypergirgs/Generator.h>
using namespace hypergirgs;
using VhFilter = DistanceFilter<100>;

extern "C" {
double vh_free_dist(double r1, double p1, double r2, double p2) { return hyperbolicDistance(r1, p1, r2, p2); }
double vh_point_dist(double r1, double p1, double r2, double p2) { Point a(0, r1, p1), b(1, r2, p2); return a.hyperbolicDistance(b); }
double vh_point_cosh(double r1, double p1, double r2, double p2) { Point a(0, r1, p1), b(1, r2, p2); return a.hyperbolicDistanceCosh(b); }
bool vh_point_below(double r1, double p1, double r2, double p2, double coshR) { Point a(0, r1, p1), b(1, r2, p2); return a.isDistanceBelowR(b, coshR); }
bool vh_point_eq(int i, int j, double r1, double p1, double r2, double p2) { Point a(i, r1, p1), b(j, r2, p2); return a == b; }
bool vh_point_ne(int i, int j, double r1, double p1, double r2, double p2) { Point a(i, r1, p1), b(j, r2, p2); return a != b; }
int vh_point_id(int i, int c, double r, double p) { Point a(i, r, p, c); return a.id; }
int vh_point_cell(int i, int c, double r, double p) { Point a(i, r, p, c); return a.cell_id; }

bool vh_touching(unsigned a, unsigned b, unsigned l) { return AngleHelper::touching(a, b, l); }
double vh_dist(unsigned a, unsigned b, unsigned l) { return AngleHelper::dist(a, b, l); }
int vh_between(unsigned a, unsigned b, unsigned l) { return AngleHelper::cellsBetween(a, b, l); }
double vh_bounds_lo(unsigned c, unsigned l) { return AngleHelper::bounds(c, l).first; }
double vh_bounds_hi(unsigned c, unsigned l) { return AngleHelper::bounds(c, l).second; }
unsigned vh_cell(double angle, unsigned l) { return AngleHelper::cellForPoint(angle, l); }
unsigned vh_numcells(unsigned l) { return AngleHelper::numCellsInLevel(l); }
unsigned vh_firstcell(unsigned l) { return AngleHelper::firstCellOfLevel(l); }
unsigned vh_parent(unsigned c) { return AngleHelper::parent(c); }
unsigned vh_child1(unsigned c) { return AngleHelper::firstChild(c); }
unsigned vh_child2(unsigned c) { return AngleHelper::secondChild(c); }
unsigned vh_children() { return AngleHelper::numChildren(); }

void vh_filter_ctor(VhFilter* mem, double p, double R, double T) { new (mem) VhFilter(p, R, T); }
double vh_filter_upper(const VhFilter* f, double p) { return f->coshDistForProb_upperBound(p); }
double vh_filter_lower(const VhFilter* f, double p) { return f->coshDistForProb_lowerBound(p); }
}
