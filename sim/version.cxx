#include "fast_positive/tuples/internal.h"
const fptu_build_info fptu_build = {"", "", "", "", ""};
