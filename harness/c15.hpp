#pragma once
#include <cstdint>
namespace fault {
extern thread_local std::int64_t countdown_new, countdown_user;      // the call with number zero fails
extern thread_local std::uint64_t seen_new, seen_user;
extern std::int64_t live_user;
struct UserFault {};
void user_point();
}
