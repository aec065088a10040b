#pragma once
#include "folly/io/async/EventBase.h"
namespace folly { class EventBaseManager { public: static EventBaseManager* get() { static EventBaseManager m; return &m; } EventBase* getEventBase() { static EventBase e; return &e; } EventBase* getExistingEventBase() { return getEventBase(); } }; }
