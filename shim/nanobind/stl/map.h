// stl/map.h
#include "../stl/common.h"
