// Instrumented element types for container checks: every construction, copy, move, read and
// destruction is checked for use of dead or moved-from objects.
#pragma once
#include "mc.h"
#include <map>
#include <string>
#include <unordered_map>
namespace tok {
struct Reg { std::unordered_map<const void*, int> live; };
inline Reg& reg() { static Reg r; return r; }
inline void born(const void* p, const char* t) { auto r = reg().live.emplace(p, 1); if (!r.second) mc::ctx().fail("lifetime", std::string("a ") + t + " was constructed over a live object"); }
inline void alive(const void* p, const char* what) { if (!reg().live.count(p)) mc::ctx().fail("lifetime", std::string(what) + " of an object that is not alive"); }
inline void dead(const void* p) { alive(p, "destruction"); reg().live.erase(p); }
// K distinguishes unrelated types
template <int K> struct Tok {
    int id;             // -1: moved from
    explicit Tok(int i) : id(i) { born(this, "value"); }
    Tok(const Tok& o) { alive(&o, "copy"); id = o.id; born(this, "copy"); }
    Tok(Tok&& o) noexcept { alive(&o, "move"); id = o.id; o.id = -1; born(this, "moved value"); }
    Tok& operator=(const Tok& o) { alive(this, "assignment to"); alive(&o, "copy"); id = o.id; return *this; }
    Tok& operator=(Tok&& o) noexcept { alive(this, "assignment to"); alive(&o, "move"); int i = o.id; o.id = -1; id = i; return *this; }
    // conversion from the token of the next kind
    explicit Tok(const Tok<K + 10>& o) { id = o.get(); born(this, "converted value"); }
    explicit Tok(Tok<K + 10>&& o) { id = o.get(); o.id = -1; born(this, "converted value"); }
    ~Tok() { dead(this); id = -2; }
    int get() const { alive(this, "read"); return id; }
};
struct Src { int id; };
}  // namespace tok
