// Analysis unit: conversions between hyperbolic coordinates and girg parameters.
#include <girgs/Hyperbolic.h>
using namespace girgs;
extern "C" {
double vh_r2w(double r, double R) { return radiusToGirgWeight(r, R); }
double vh_w2r(double w, double R, double s) { return girgWeightToRadius(w, R, s); }
double vh_w2r1(double w, double R) { return girgWeightToRadius(w, R); }
double vh_a2p(double a) { return angleToGirgPosition(a); }
double vh_p2a(double p) { return girgPositionToAngle(p); }
double vh_rwr(double r, double R) { return girgWeightToRadius(radiusToGirgWeight(r, R), R); }
double vh_wrw(double w, double R) { return radiusToGirgWeight(girgWeightToRadius(w, R), R); }
double vh_apa(double a) { return girgPositionToAngle(angleToGirgPosition(a)); }
double vh_pap(double p) { return angleToGirgPosition(girgPositionToAngle(p)); }
}
