// C05 for the branches of the blocking queue that are meant for MinGW: everything it includes comes first, as on this system.
#define PERTURB_WRAP
#include "perturb.h"

#include "base/circular_queue.h"

#include <atomic>
#include <condition_variable>
#include <deque>
#include <memory>
#include <mutex>
#define __MINGW32__ 1
#include "base/block_queue.h"
#undef __MINGW32__
#include "h_queue.cpp"
