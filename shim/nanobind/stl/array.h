// stl/array.h
#include "../stl/common.h"
