// Small bridges between the harnesses and the library's types.
#pragma once
#include "definitions.h"
#include "base/log_msg.h"

#include <chrono>
#include <string>

namespace lib {
inline learnlog::sys_clock::time_point tp(long long ns) {
    return learnlog::sys_clock::time_point(
        std::chrono::duration_cast<learnlog::sys_clock::duration>(std::chrono::nanoseconds(ns)));
}
inline long long ns_of(learnlog::sys_clock::time_point t) {
    return std::chrono::duration_cast<std::chrono::nanoseconds>(t.time_since_epoch()).count();
}
inline long long now_ns() { return ns_of(learnlog::sys_clock::now()); }
inline std::string str(learnlog::fmt_string_view v) { return std::string(v.data(), v.size()); }
}   // namespace lib
