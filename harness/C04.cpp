// C04: numeric operations on shared series are safe from any thread.
#include "ops.h"
#define OPS_COUNT numeric_ops()
#define OPS_NAME numeric_name
#define OPS_RUN numeric
#define PROPERTY "C04"
#include "concurrent_ops.inc"
