#pragma once
namespace folly { struct Unit { bool operator==(const Unit&) const { return true; } bool operator!=(const Unit&) const { return false; } template <class T> struct Lift { typedef T type; }; }; template <> struct Unit::Lift<void> { typedef Unit type; }; inline constexpr Unit unit{}; }
