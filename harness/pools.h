// The three kinds of thread pools.
#pragma once
#include "async_logger.h"
#include "base/lock_thread_pool.h"
#include "base/lockfree_concurrent_thread_pool.h"
#include "base/lockfree_thread_pool.h"

namespace lib {
using namespace learnlog;
inline thread_pool_shr_ptr make_pool(size_t kind, size_t q, size_t threads = 1) {
    switch (kind) {
        case 1: return std::make_shared<base::lock_thread_pool>(q, threads);
        case 2: return std::make_shared<base::lockfree_thread_pool>(q, threads);
        default: return std::make_shared<base::lockfree_concurrent_thread_pool>(q, threads);
    }
}
inline const char* pool_name(size_t kind) {
    static const char* const N[] = {"no pool", "lock", "lockfree", "concurrent"};
    return N[kind];
}
}   // namespace lib
