#include "algorithm/sort.h"
// Verification unit: sorting; the comparison is an uninterpreted strict weak order on 32-bit values
extern "C" {
int32 kv_cmp(int32 a, int32 b);
struct Cmp { int32 operator()(const int32 & a, const int32 & b) const { return kv_cmp(a, b); } };
int32 *sort_partition(int32 *b, int32 *e, int32 p) { return Sort::partition(b, e, p, Cmp{}); }
void sort_quick(int32 *b, int32 *e) { Sort::quicksort(b, e, Cmp{}); }
void sort_arg(int32 *b, int32 *e, uint64 *x) { Sort::argquicksort(b, e, x, Cmp{}); }
void sort_quick_lv(int32 *b, int32 *e) { Cmp c; Sort::quicksort(b, e, c); }
}
