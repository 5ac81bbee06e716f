// Independent reference propagator: SGP4/SDP4 in the formulation of Vallado et al. (2006, "Revisiting
// Spacetrack Report #3"), WGS-72 constants, plus the Earth/Moon/Sun state-vector integrator.
// Written from the theory; shares no code with the project.
#pragma once
extern "C" {
// el: epoch JD, bstar, e, argp, incl, M, n (rad/min, Kozai), node (radians).
// returns 0, or the Vallado error code (1 mean elements, 2 mean motion<=0, 4 semi-latus rectum<0, 6 decayed)
// info[0] = 1 deep, info[1] = resonance class (0,1,2), info[2] = perigee (er) flag isimp, info[3] = e used, info[4]=incl used, info[5]=a
int ref_sgp4(const double *el, double tsince, double *r, double *v, double *info, int force_deep);
int ref_is_deep(const double *el);
extern double ref_step; extern int ref_order, ref_model;  // model 4 or 8
int ref_sgp(const double *el, double ndot_2, double nddot_6, double tsince, double *r, double *v, double *info);
//  // of the resonance integration: minutes (720), order (2)
// state: m, m/s, equatorial J2000-like axes as stored in 'H' TLEs, epoch JD; result km, km/min
void ref_high(const double *state, double epoch, double tsince_min, int steps_per_day, double *r, double *v);
double ref_gmst(double jd);  // radians, IAU 1982
}
