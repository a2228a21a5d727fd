// Shim: the sandbox ships oneTBB 2021, which dropped tbb_stddef.h.  /repo only
// needs tbb::split from it.
#pragma once
#include <tbb/blocked_range.h>
