// Number of live heap blocks, for leak checks in checks built with AddressSanitizer.
#pragma once
#include <cstddef>
extern "C" int __sanitizer_install_malloc_and_free_hooks(void (*)(const volatile void*, size_t), void (*)(const volatile void*));
namespace mc {
extern thread_local int heap_paused;   // set while the engine itself allocates
inline long& heap_live_ref() { static thread_local long n = 0; return n; }
inline void heap_on_malloc(const volatile void*, size_t) { if (!heap_paused) ++heap_live_ref(); }
inline void heap_on_free(const volatile void* p) { if (p && !heap_paused) --heap_live_ref(); }
inline bool heap_init() { heap_live_ref(); static bool ok = __sanitizer_install_malloc_and_free_hooks(heap_on_malloc, heap_on_free) != 0; return ok; }
inline long heap_live() { heap_init(); return heap_live_ref(); }
}
