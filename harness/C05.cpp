// C05: functional and collection operations are safe on shared series.
#include "ops.h"
#define OPS_COUNT func_ops()
#define OPS_NAME func_name
#define OPS_RUN functional
#define PROPERTY "C05"
#define WITH_HOOK 1
#include "concurrent_ops.inc"
