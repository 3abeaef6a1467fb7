#include "pareto.hpp"
