#pragma once
#include "thrift/lib/cpp2/GeneratedCodeHelper.h"
namespace apache { namespace thrift { class ThriftServer {}; } }
