// eigen/dense.h
#include "../eigen/common.h"
