#pragma once
#define FOLLY_MAYBE_UNUSED [[maybe_unused]]
#define FOLLY_NODISCARD [[nodiscard]]
#define FOLLY_FALLTHROUGH [[fallthrough]]
#define FOLLY_ALWAYS_INLINE inline __attribute__((always_inline))
