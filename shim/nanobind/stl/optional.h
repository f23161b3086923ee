// stl/optional.h
#include "../stl/common.h"
