#include "core/base.h"
#include "utils/frontier.h"
#include <set>
using namespace Planner;
struct E {
	int id;
	double v;
};
struct Cmp {
	bool operator()(const E& a, const E& b) const { return a.v > b.v; }
};
struct Hash {
	size_t operator()(const E& a) const { return a.id; }
};
struct Eq {
	bool operator()(const E& a, const E& b) const { return a.id == b.id; }
};
int main()
{
	for (int gone = 0; gone < 6; gone++) {
		Frontier<E, Cmp, Hash, Eq> f;
		for (int i = 0; i < 6; i++)
			f.Push({ i, i < 3 ? 1.0 : 2.0 });
		f.Remove({ gone, 0 });
		std::set<int> left;
		while (!f.Empty())
			left.insert(f.Pop().id);
		if (left.size() != 5 || left.count(gone))
			return 1;
	}
	return 0;
}
