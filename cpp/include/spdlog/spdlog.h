// Stand-in for the logging library: messages are dropped, the level is kept.
#pragma once
#include <string>
namespace spdlog {
namespace level { enum level_enum { trace, debug, info, warn, err, critical, off }; }
inline level::level_enum &current_level() { static level::level_enum l = level::info; return l; }
inline void set_level(level::level_enum l) { current_level() = l; }
inline level::level_enum get_level() { return current_level(); }
inline bool should_log(level::level_enum l) { return l >= current_level(); }
template <typename... T> inline void trace(const T &...) {}
template <typename... T> inline void debug(const T &...) {}
template <typename... T> inline void info(const T &...) {}
template <typename... T> inline void warn(const T &...) {}
template <typename... T> inline void error(const T &...) {}
template <typename... T> inline void critical(const T &...) {}
}
