#include "core/base.h"
#include "algo/a_star.h"
using namespace Planner;
struct Graph : AStarStatePropagator<int, NullAction> {
	std::vector<std::tuple<int, NullAction, double>> GetNeighborStates(const int& s) override
	{
		if (s == 0)
			return { { 1, NullAction(), 1.0 }, { 2, NullAction(), 10.0 } };
		if (s == 1)
			return { { 2, NullAction(), 1.0 } };
		if (s == 2)
			return { { 3, NullAction(), 20.0 } };
		return {};
	}
};
struct Zero : AStarConcreteHeuristic<int> {
	double GetHeuristicValue(const int&) override { return 0; }
};
int main()
{
	AStar<int, NullAction> a;
	a.Initialize(makeRef<Graph>(), makeRef<Zero>());
	a.SetInitState(0);
	a.SetGoalState(3);
	if (a.SearchPath() != Status::Success)
		return 2;
	return a.GetPath() == std::vector<int> { 0, 1, 2, 3 } ? 0 : 1;
}
