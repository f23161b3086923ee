// stl/shared_ptr.h
#include "../stl/common.h"
