// The same scenarios, explored by preemptions rather than by delays.
#define C32_NO_EVENTS
#include "karl.cc"
