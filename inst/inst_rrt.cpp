#include "core/base.h"
#include "algo/rrt.h"
template class Planner::RRT<Planner::Point2d, 2>;
