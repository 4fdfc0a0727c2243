#ifndef MINI_ALL
#define MINI_ALL
#include "tbox.h"
#include "hier.h"
#include "pdat.h"
#include "mini_math.h"
#include "xfer.h"
#include "solv.h"
#endif
