#include "core/base.h"
#include "state_validator/state_validator.h"
#include "state_validator/state_validator_free.h"
template class Planner::StateValidator<Planner::Pose2d, 3, double>;
template class Planner::StateValidator<Planner::Point2d, 2, double>;
template class Planner::StateValidatorFree<Planner::Pose2d, 3, double>;
