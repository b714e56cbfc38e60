#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/gvd.h"
#include <cmath>
using namespace Planner;
int main()
{
	ObstacleListOccupancyMap map(1.0f);
	map.InitializeSize(30, 20);
	auto a = makeRef<Obstacle>(), b = makeRef<Obstacle>();
	a->SetShape(makeRef<RectangleShape>(2, 2)); a->SetPose(Pose2d(-8, 0, 0));
	b->SetShape(makeRef<RectangleShape>(2, 2)); b->SetPose(Pose2d(8, 0, 0));
	map.AddObstacle(a); map.AddObstacle(b); map.Update();
	map.RemoveObstacle(a); map.Update();
	for (int r = 0; r < map.Rows(); r++)
		for (int c = 0; c < map.Columns(); c++) {
			double best = 1e9;
			for (int i = 0; i < map.Rows(); i++)
				for (int j = 0; j < map.Columns(); j++)
					if (map.IsOccupied({ i, j }))
						best = std::min(best, std::hypot(i - r, j - c));
			double d = map.GetObstacleDistanceMap()->GetDistanceToNearestObstacle(r, c);
			if (std::abs(d - best) > 1.0)
				return 1;
		}
	return 0;
}
