// Replayed calls must come back from a reported error instead of ending the process.
#pragma once
#include <um2/common/logger.hpp>
#ifdef IRV_NATIVE
#  define QUIET um2::logger::exit_on_error = false; um2::logger::level = um2::logger::levels::off;
#else
#  define QUIET
#endif
