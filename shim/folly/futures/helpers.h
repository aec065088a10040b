#pragma once
#include "folly/futures/Future.h"
