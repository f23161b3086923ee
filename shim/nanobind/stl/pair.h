// stl/pair.h
#include "../stl/common.h"
