#pragma once
#include "folly/executors/Async.h"
