// Instantiates the formatting log functions; every body under contract is the one in /repo.
#include "logging.hpp"
namespace probe {
    namespace lg = cpptrace::detail::log;
    void error(const char* f, const char* const* a) { lg::error(f, *a); }
    void warn(const char* f, const char* const* a) { lg::warn(f, *a); }
    void info(const char* f, const char* const* a) { lg::info(f, *a); }
    void debug(const char* f, const char* const* a) { lg::debug(f, *a); }
}
