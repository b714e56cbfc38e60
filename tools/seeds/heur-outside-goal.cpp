#include "state_validator/obstacle_list_occupancy_map.h"
#include "algo/heuristics.h"
#include <cmath>
using namespace Planner;
struct H : ObstaclesHeuristic {
	using ObstaclesHeuristic::ObstaclesHeuristic;
	using ObstaclesHeuristic::SetGoal;
};
int main()
{
	auto map = makeRef<ObstacleListOccupancyMap>(1.0f);
	map->InitializeSize(20, 20);
	H h(map, 1.0, 1.0);
	for (double x : { -8.5, 0.5, 8.5 }) {
		Pose2d in(x, x, 0), out(60, 60, 0), state(9.5, 9.5, 0);
		h.SetGoal(in);
		h.Update(in);
		h.SetGoal(out);
		h.Update(out);
		double e = (out.position - state.position).norm();
		double far_ = h.GetHeuristicValue(state);
		Pose2d near_(30, 9.5, 0);
		h.SetGoal(in);
		h.Update(in);
		h.SetGoal(near_);
		h.Update(near_);
		double d = (near_.position - state.position).norm();
		double v = h.GetHeuristicValue(state);
		if (std::fabs(far_ - e) > 1e-6 || std::fabs(v - d) > 1e-6)
			return 1;
	}
	return 0;
}
