#pragma once
#include <string>
namespace apache { namespace thrift {
template <class E> struct TEnumTraits;
namespace util {
template <class E> const char* enumName(E e, const char* d = nullptr) { const char* n = TEnumTraits<E>::findName(e); return n ? n : d; }
template <class E> std::string enumNameSafe(E e) { const char* n = TEnumTraits<E>::findName(e); return n ? n : std::to_string((long long)e); }
}
}}
