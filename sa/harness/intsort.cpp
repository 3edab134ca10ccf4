// Analysis unit: the radix sort, instantiated for elements with a 32-bit key.
#include <vector>
#ifdef VH_HYPER
#include <hypergirgs/IntSort.h>
#else
#include <girgs/IntSort.h>
#endif

struct VhItem { unsigned int key; unsigned int data[9]; };
struct VhKey { unsigned int operator()(const VhItem& x) const { return x.key; } };

void vh_sort(std::vector<VhItem>& items, unsigned int bound) { intsort::intsort(items, VhKey{}, bound); }
void vh_sort_range(std::vector<VhItem>::iterator items, std::vector<VhItem>::iterator end, unsigned int bound) { intsort::intsort(items, end, VhKey{}, bound); }
void vh_sort_unique(std::unique_ptr<VhItem[]>& items, std::size_t n, unsigned int bound) { intsort::intsort(items, n, VhKey{}, bound); }
void vh_sort_shared(std::shared_ptr<VhItem[]>& items, std::size_t n, unsigned int bound) { intsort::intsort(items, n, VhKey{}, bound); }
