// the default configuration as a source file that includes nothing but the configuration header sees it
#include "catima/config.h"
int default_model_seen_alone() { return catima::Config().z_effective; }
