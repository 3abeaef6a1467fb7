#include "parallel.hpp"
