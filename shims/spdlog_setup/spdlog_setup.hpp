// Offline stand-in for gegles-spdlog_setup (not installed here). Only the one entry point the
// library names is provided; it refuses every file, so no check may depend on it.
#ifndef VERIF_SPDLOG_SETUP_SHIM
#define VERIF_SPDLOG_SETUP_SHIM
#include <stdexcept>
#include <string>
namespace spdlog_setup {
inline void from_file(const std::string& f) { throw std::runtime_error("spdlog_setup is not available offline: " + f); }
} // namespace spdlog_setup
#endif
