// stand-in for the GNU Scientific Library, see standin_gsl.h
#pragma once
#include "gsl/standin_gsl.h"
