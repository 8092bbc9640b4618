// linked in front of the library's functions of the same name
#include "catima/calculations.h"
#include "standin.h"
namespace catima {
double bethek_lindhard(const Projectile& p) { return standin(p.Z, p.A, p.T); }
double bethek_lindhard_X(const Projectile& p) { return standin_X(p.Z, p.A, p.T); }
}
