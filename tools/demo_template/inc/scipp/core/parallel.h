#include "scipp/core/parallel-fallback.h"
