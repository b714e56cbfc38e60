#include "core/base.h"
#include "algo/a_star.h"
#include "algo/a_star_n2.h"
#include "algo/bidirectional_a_star.h"
#include <functional>
namespace PPInst { using G = Planner::GridCellPosition; using F = std::function<double(const G&, const G&)>; using FA = std::function<const G&(const G&)>; }
template class Planner::AStar<Planner::GridCellPosition, Planner::NullAction, std::hash<Planner::GridCellPosition>, std::equal_to<Planner::GridCellPosition>, true>;
template class Planner::AStar<Planner::GridCellPosition, Planner::NullAction, std::hash<Planner::GridCellPosition>, std::equal_to<Planner::GridCellPosition>, false>;
template class Planner::AverageHeuristic<Planner::GridCellPosition>;
template class Planner::AStarCombinedHeuristic<Planner::GridCellPosition>;
template class Planner::AStarConcreteHeuristic<Planner::GridCellPosition>;
template class Planner::AStarConcreteHeuristicFcn<Planner::GridCellPosition, PPInst::F>;
template class Planner::AStarHeuristicAdapter<Planner::GridCellPosition, Planner::GridCellPosition, PPInst::FA>;
template class Planner::PathPlanner<Planner::GridCellPosition>;
