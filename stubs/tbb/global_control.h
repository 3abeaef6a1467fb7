#include "vp_tbb.h"
