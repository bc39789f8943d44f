// Faults injected into the system calls of the library's threads (see checks/interpose.cpp)
#pragma once
#include <atomic>
#include <cstdint>
#include <string>
#include <vector>

namespace fault {

// The harness's own threads are exempt
extern thread_local bool exempt;

// partial writes: a call transmits at least one byte and otherwise a share drawn from the seed
extern std::atomic<uint64_t> send_seed;        // 0 = off
extern std::atomic<uint64_t> partial_sends;    // number of calls that were cut

// scripted writes: each call of the library's threads takes the next step; bytes > 0 cuts the write, bytes == 0
// fails it with `error`
struct SendStep { size_t bytes; int error; };
void script_sends(std::vector<SendStep> steps);
size_t script_left();

// failing accept: the next `accept_errors` calls with a connection waiting fail with `accept_errno`,
// after having consumed the connection if `accept_consume`
extern std::atomic<int> accept_errors, accept_errno;
extern std::atomic<bool> accept_consume;
extern std::atomic<uint64_t> accept_failed;

// failing socket(): the next calls fail with EMFILE
extern std::atomic<int> socket_errors;
extern std::atomic<uint64_t> socket_failed;
extern std::atomic<int> sndbuf;                // SO_SNDBUF of new sockets, 0 = default

// name resolution: names ending in ".test" are answered from here
struct Name { std::string host; int error; std::vector<std::string> addresses; };
extern std::atomic<int> lookup_delay_us;        // duration of a lookup of such a name
void set_names(const std::vector<Name>& names);
extern std::atomic<uint64_t> lookups;
std::vector<std::string> take_looked_up();     // hosts asked for since the last call

void reset();

} // namespace fault
