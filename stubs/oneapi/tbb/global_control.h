#include "../../tbb/vp_tbb.h"
