// eigen/sparse.h
#include "../eigen/common.h"
