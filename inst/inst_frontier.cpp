#include "core/base.h"
#include "utils/frontier.h"
template class Planner::Frontier<int>;
template class Planner::Frontier<double*>;
