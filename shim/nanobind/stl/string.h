// stl/string.h
#include "../stl/common.h"
