#include "core/base.h"
#include "algo/rrt_star.h"
template class Planner::RRTStar<Planner::Point2d, 2>;
