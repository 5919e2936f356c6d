// Logging without effect: messages are not part of any contract.
#pragma once
namespace svs::logging {
enum class Level { Trace, Debug, Info, Warn, Error, Critical, Off };
using logger_ptr = int;
inline int get() { return 0; }
template <class... X> void log(X&&...) {}
template <class... X> void trace(X&&...) {}
template <class... X> void debug(X&&...) {}
template <class... X> void info(X&&...) {}
template <class... X> void warn(X&&...) {}
template <class... X> void error(X&&...) {}
} // namespace svs::logging
