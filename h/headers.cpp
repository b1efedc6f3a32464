// Every header the harnesses rely on, without instantiating anything: if this
// does not compile, the tree is broken rather than a property.
#include "algorithm/sort.h"
#include "containers/array.h"
#include "containers/list.h"
#include "containers/map.h"
#include "containers/pair.h"
#include "containers/set.h"
#include "containers/string.h"
#include "containers/tree.h"
#include "containers/tuple.h"
#include "hal/malloc_ansi.h"
#include "hal/malloc_binned.h"
#include "hal/malloc_object.h"
#include "hal/malloc_pool.h"
#include "hal/platform_math.h"
#include "hal/platform_memory.h"
#include "math/mat4.h"
#include "math/math.h"
#include "math/quat.h"
#include "math/vec3.h"
#include "regex/regex.h"
#include "templates/array.h"
#include "templates/atomic.h"
#include "templates/function.h"
#include "templates/functional.h"
#include "templates/name.h"
#include "templates/optional.h"
#include "templates/type_info.h"
