// stl/list.h
#include "../stl/common.h"
