/* Stand-in for the external charge-state library of the optional build. */
#ifndef GLOBALLIB_STANDIN
#define GLOBALLIB_STANDIN
double global_qmean(double pz, double tz, double E);
#endif
