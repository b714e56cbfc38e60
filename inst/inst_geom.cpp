#include "core/base.h"
#include "geometry/2dplane.h"
#include "utils/maths.h"
#include "utils/grid.h"
#include "utils/singleton.h"
#include "paths/path_composite.h"
template struct Planner::Pose2<double>;
template Planner::Pose2<double> Planner::operator+(const Planner::Pose2<double>&, const Planner::Pose2<double>&);
template Planner::Pose2<double> Planner::operator-(const Planner::Pose2<double>&, const Planner::Pose2<double>&);
template bool Planner::operator==(const Planner::Pose2<double>&, const Planner::Pose2<double>&);
template bool Planner::operator!=(const Planner::Pose2<double>&, const Planner::Pose2<double>&);
template struct std::hash<Planner::Pose2<double>>;
template struct std::equal_to<Planner::Pose2<double>>;
template struct std::hash<Planner::Pose2<int>>;
template struct std::equal_to<Planner::Pose2<int>>;
template double Planner::Maths::Modulo<double>(double, double);
template struct Planner::Grid<int>;
template struct Planner::Grid<float>;
template struct Planner::Grid<bool>;
template struct Planner::Grid<Planner::GridCellPosition>;
template class Planner::PathComposite<Planner::Pose2d, Planner::PathNonHolonomicSE2Base>;
template class Planner::Path<Planner::Pose2d>;
template class Planner::Path<Planner::Point2d>;
