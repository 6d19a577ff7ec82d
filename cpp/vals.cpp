#define PBT_SUPPORT
#define PBT_VALS
#include "vals.h"
