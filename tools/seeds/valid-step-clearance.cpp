#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/gvd.h"
#include "state_validator/state_validator_occupancy_map.h"
#include "state_space/state_space_se2.h"
#include "paths/path_se2.h"
#include <cmath>
using namespace Planner;
int main()
{
	for (double y = 5.5; y < 5.65; y += 0.1)
		for (double x = -6.0; x < 6.0; x += 1.2) {
			auto space = makeRef<StateSpaceSE2>(Pose2d(-20, -20, -3), Pose2d(20, 20, 3));
			auto map = makeRef<ObstacleListOccupancyMap>(0.2f);
			StateValidatorOccupancyMap v(space, map);
			v.minSafeRadius = 6.0f;
			auto o = makeRef<Obstacle>();
			o->SetShape(makeRef<RectangleShape>(0.2, 0.2));
			o->SetPose(Pose2d(x, y, 0));
			map->AddObstacle(o);
			map->Update();
			PathSE2 p(Pose2d(-19, 0, 0), Pose2d(19, 0, 0));
			if (!v.IsPathValid(p))
				continue;
			for (int i = 0; i <= 300; i++) {
				auto c = map->WorldPositionToGridCell(p.Interpolate(i / 300.0).position);
				if (map->GetObstacleDistanceMap()->GetDistanceToNearestObstacle(c) < 5.7f)
					return 1;
			}
		}
	return 0;
}
