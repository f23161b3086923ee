// stl/tuple.h
#include "../stl/common.h"
