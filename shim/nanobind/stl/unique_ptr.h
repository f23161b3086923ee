// stl/unique_ptr.h
#include "../stl/common.h"
