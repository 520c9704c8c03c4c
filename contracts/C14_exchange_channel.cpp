// C14: exchange_channel. Each operation is verified from any state, against any behaviour of any number of other threads.
//@ assume: other threads use the channel only through its operations (they are instances of the calls proved here)
//@ trusted: std::mutex and std::condition_variable by contract (mutual exclusion; wait releases the mutex and may wake spuriously)
//@ assume: every atomic access is a single indivisible step
#define VF_MON 1
#include "ghost_exchange.hpp"
EXCHANGE_HARNESSES(x_)
