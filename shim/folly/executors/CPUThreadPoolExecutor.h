#pragma once
#include "folly/executors/Async.h"
namespace folly { class CPUThreadPoolExecutor : public InlineExecutor { public: explicit CPUThreadPoolExecutor(size_t) {} }; }
