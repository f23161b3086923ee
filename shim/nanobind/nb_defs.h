// nb_defs
#include "nanobind.h"
