// stl/vector.h
#include "../stl/common.h"
