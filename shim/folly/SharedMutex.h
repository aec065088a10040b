#pragma once
#include "folly/RWSpinLock.h"
