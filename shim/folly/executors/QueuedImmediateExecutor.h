#pragma once
#include "folly/Executor.h"
