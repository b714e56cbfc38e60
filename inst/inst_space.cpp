#include "core/base.h"
#include "state_space/state_space_r2.h"
#include "state_space/state_space_se2.h"
template class Planner::StateSpace<Planner::Point2d, 2, double>;
template class Planner::StateSpace<Planner::Pose2d, 3, double>;
template class Planner::Random<double>;
