// the momentum as seen by a program that includes the calculation header only
#include "catima/calculations.h"
double momentum_from_calculations(double T, double M) { return catima::p_from_T(T, M); }
