#define UNIT_NAME UnitB
#define UNIT_ADDRESS kvUnitB
#define UNIT_WORK kvWorkB
#define UNIT_INTACT kvIntactB
#include "unit.h"
