#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/gvd.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
#include "algo/smoother.h"
using namespace Planner;
int main()
{
	auto space = makeRef<StateSpaceSE2>(Pose2d(-20, -20, -3), Pose2d(20, 20, 3));
	auto map = makeRef<ObstacleListOccupancyMap>(0.2f);
	auto v = makeRef<StateValidatorOccupancyMap>(space, map);
	map->Update();
	for (int cusp = 1; cusp < 19; cusp++) {
		Smoother s;
		auto gvd = makeRef<GVD>(map);
		gvd->Update();
		if (!s.Initialize(v, gvd, 0.1f))
			return 3;
		std::vector<Pose2d> p;
		for (int i = 0; i < 20; i++)
			p.push_back(Pose2d(i * 0.4, (i % 2) * 0.3, 0));
		s.Smooth(p, { cusp });
		auto r = s.GetPath();
		for (int i : { 0, cusp, 19 })
			if ((r[i].position - p[i].position).norm() > 1e-9)
				return 1;
	}
	return 0;
}
