#include "array_ops.h"
#if KV_PART == 1
static void values(kv::Rng & R)
{
	switch (R.below(6))
	{
		case 0: case 1: ArrayWork<int32>::run(R); break;
		case 2: ArrayWork<uint64>::run(R); break;
		case 3: ArrayWork<PodDef>::run(R); break;
		case 4: ArrayWork<Pod3>::run(R); break;
		case 5: ArrayWork<CopyOnly>::run(R); break;
	}
}
KV_MAIN({"values", values, false})
#else
static void owning(kv::Rng & R)
{
	switch (R.below(4))
	{
		case 0: case 1: ArrayWork<kv::Tracked<>>::run(R); break;
		case 2: ArrayWork<kv::Tracked<1, 32>>::run(R); break;
		case 3: ArrayWork<String>::run(R); break;
	}
}
KV_MAIN({"owning", owning, false})
#endif
