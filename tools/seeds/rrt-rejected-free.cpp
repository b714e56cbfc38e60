#include "core/base.h"
#include "algo/rrt.h"
#include "paths/path_r2.h"
#include "state_space/state_space_r2.h"
#include "state_validator/state_validator_free.h"
#include <unistd.h>
using namespace Planner;
struct Closed : StateValidator<Point2d, 2, double> {
	using StateValidator<Point2d, 2, double>::StateValidator;
	bool IsStateValid(const Point2d&) override { return false; }
	bool IsPathValid(const Path<Point2d>&, float* last = nullptr) override
	{
		if (last)
			*last = 0;
		return false;
	}
};
int main()
{
	alarm(20);
	auto s = makeRef<StateSpaceR2>(std::array<Point2d, 2> { Point2d(0, 0), Point2d(5, 5) });
	RRTR2 rrt(s, makeRef<Closed>(s), makeRef<PathConnectionR2>());
	RRTParameters p;
	p.maxIteration = 50;
	rrt.SetParameters(p);
	rrt.SetInitState(Point2d(0, 0));
	rrt.SetGoalState(Point2d(4, 4));
	return rrt.SearchPath() == Status::Failure ? 0 : 1;
}
