#include "state_validator/obstacle_list_occupancy_map.h"
#include "state_validator/obstacle.h"
#include "state_validator/gvd.h"
using namespace Planner;
int main()
{
	ObstacleListOccupancyMap map(1.0f);
	map.InitializeSize(10, 10);
	Obstacle o;
	o.SetShape(makeRef<RectangleShape>(2, 8));
	o.SetPose(Pose2d(0, 4, 0));
	for (auto& c : o.GetBoundaryGridCellPosition(map))
		if (c.row < 0 || c.row >= map.Rows() || c.col < 0 || c.col >= map.Columns())
			return 1;
	return 0;
}
