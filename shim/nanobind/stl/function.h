// stl/function.h
#include "../stl/common.h"
