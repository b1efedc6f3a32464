#define UNIT_NAME UnitA
#define UNIT_ADDRESS kvUnitA
#define UNIT_WORK kvWorkA
#define UNIT_INTACT kvIntactA
#include "unit.h"
