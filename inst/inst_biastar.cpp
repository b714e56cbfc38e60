#include "core/base.h"
#include "algo/a_star_n2.h"
#include "algo/bidirectional_a_star.h"
template class Planner::BidirectionalAStar<Planner::GridCellPosition, Planner::NullAction, std::hash<Planner::GridCellPosition>, std::equal_to<Planner::GridCellPosition>, true>;
