#pragma once
#include "folly/init/Init.h"
