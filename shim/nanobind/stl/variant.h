// stl/variant.h
#include "../stl/common.h"
