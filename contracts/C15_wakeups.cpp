// C15: wakeups and locking of channel and exchange_channel. Invariant between critical sections: if threads sleep on a
// condition, at least min(sleepers, events available) wakeups are issued or owed by running operations. Each operation
// pays for the events it makes available (an element, free capacity, closed), passes on a wakeup it does not use, never
// goes to sleep while the event it waits for is there, and accesses the state only under the mutex.
//@ assume: other threads use the channel only through its operations (they are instances of the calls proved here)
//@ assume: allocating a queue node does not fail
//@ trusted: std::deque, std::mutex and std::condition_variable by contract (an ideal queue; mutual exclusion; wait releases the mutex, may wake spuriously, and is woken by a notification issued after it started)
//@ assume: every atomic access is a single indivisible step
#define VF_MON 2
#include "ghost_channel.hpp"
#include "ghost_exchange.hpp"
CHANNEL_HARNESSES
EXCHANGE_HARNESSES(x_)
