#pragma once
#include "folly/futures/Future.h"
namespace folly { template <class F> auto async(F&& f) { return makeFutureWith(std::forward<F>(f)); } inline Executor* getCPUExecutor() { return &InlineExecutor::instance(); } inline Executor* getGlobalCPUExecutor() { return &InlineExecutor::instance(); } }
