// stl/set.h
#include "../stl/common.h"
