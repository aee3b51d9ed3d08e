// One use of every error handling macro, in the build configuration given by the flags.  Only parsed.
#include <cstddef>
#include "NeoFOAM/core/error.hpp"
#ifndef NFPROBE_HEADER_ONLY
#include "error_probes.hpp"
#endif
