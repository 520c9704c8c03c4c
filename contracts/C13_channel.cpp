// C13: channel. Each operation is verified from any state, against any behaviour of any number of other threads.
//@ assume: other threads use the channel only through its operations (they are instances of the calls proved here)
//@ assume: allocating a queue node does not fail
//@ trusted: std::deque, std::mutex and std::condition_variable by contract (an ideal queue; mutual exclusion; wait releases the mutex and may wake spuriously)
//@ assume: every atomic access is a single indivisible step
#define VF_MON 1
#include "ghost_channel.hpp"
CHANNEL_HARNESSES
