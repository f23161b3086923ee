// stl/unordered_map.h
#include "../stl/common.h"
