#pragma once
#include <cstdint>
// mode 0: threads start at once; 1: random delays; 2: random start order, each
// thread waiting (a bounded time) until the one before it has finished
void shim_config(int mode, uint64_t seed, int default_threads);
long shim_regions();       // parallel regions executed with more than one thread
long shim_bodies();
uint64_t shim_schedule();  // hash of thread counts, delays and orders since the last shim_config
void shim_jitter();        // called from model evaluations
