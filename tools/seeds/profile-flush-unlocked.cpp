#include "core/base.h"
#include "debug/profiler.h"
#include <thread>
#include <vector>
using namespace Planner;
int main()
{
	Profiler::Init();
	std::vector<std::thread> ts;
	for (int i = 0; i < 4; i++)
		ts.emplace_back([] {
			for (int k = 0; k < 2000; k++)
				Profiler::Get().WriteProfile({ "f", k, k + 1, std::this_thread::get_id() });
		});
	for (auto& t : ts)
		t.join();
	Profiler::Release();
	return 0;
}
