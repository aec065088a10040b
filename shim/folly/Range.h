// Stand-in for folly/Range.h: a view of characters with the interface the code under test uses.
#pragma once
#include <algorithm>
#include <cstddef>
#include <cstring>
#include <functional>
#include <iterator>
#include <ostream>
#include <stdexcept>
#include <string>
#include <string_view>
#include <type_traits>
#include <vector>
#include <array>

namespace folly {
template <class Iter> class Range {
 public:
    typedef Iter iterator; typedef Iter const_iterator;
    typedef typename std::iterator_traits<Iter>::value_type value_type;
    typedef typename std::iterator_traits<Iter>::reference reference;
    typedef std::size_t size_type; typedef std::ptrdiff_t difference_type;
    static constexpr size_type npos = size_type(-1);
    constexpr Range() : b_(nullptr), e_(nullptr) {}
    constexpr Range(Iter b, Iter e) : b_(b), e_(e) {}
    constexpr Range(Iter b, size_type n) : b_(b), e_(b + n) {}
    template <class I = Iter, class = std::enable_if_t<std::is_same<I, const char*>::value>> constexpr Range(const char* s) : b_(s), e_(s + (s ? __builtin_strlen(s) : 0)) {}
    template <class I = Iter, class = std::enable_if_t<std::is_same<I, const char*>::value>> Range(const std::string& s) : b_(s.data()), e_(s.data() + s.size()) {}
    template <class I = Iter, class = std::enable_if_t<std::is_same<I, const char*>::value>> Range(const std::string& s, size_type from) { *this = Range(s.data() + from, s.size() - from); if (from > s.size()) throw std::out_of_range("index out of range"); }
    template <class I = Iter, class = std::enable_if_t<std::is_same<I, const char*>::value>> Range(const std::string& s, size_type from, size_type n) { if (from > s.size()) throw std::out_of_range("index out of range"); b_ = s.data() + from; e_ = b_ + std::min(n, s.size() - from); }
    template <class I = Iter, class = std::enable_if_t<std::is_same<I, const char*>::value>> constexpr Range(std::string_view s) : b_(s.data()), e_(s.data() + s.size()) {}
    template <class I2, class = std::enable_if_t<!std::is_same<I2, Iter>::value && std::is_convertible<I2, Iter>::value>> Range(const Range<I2>& o) : b_(o.begin()), e_(o.end()) {}
    template <class I = Iter, class C, class = std::enable_if_t<std::is_same<I, const unsigned char*>::value && (std::is_same<C, char>::value)>> explicit Range(const Range<const C*>& o, int = 0) : b_((const unsigned char*)o.begin()), e_((const unsigned char*)o.end()) {}
    constexpr Iter begin() const { return b_; }
    constexpr Iter end() const { return e_; }
    constexpr Iter cbegin() const { return b_; }
    constexpr Iter cend() const { return e_; }
    constexpr Iter data() const { return b_; }
    constexpr Iter start() const { return b_; }
    constexpr size_type size() const { return size_type(e_ - b_); }
    constexpr size_type length() const { return size(); }
    constexpr bool empty() const { return b_ == e_; }
    void clear() { b_ = e_ = nullptr; }
    void assign(Iter b, Iter e) { b_ = b; e_ = e; }
    void reset(Iter b, size_type n) { b_ = b; e_ = b + n; }
    reference operator[](size_type i) const { return b_[i]; }
    reference at(size_type i) const { if (i >= size()) throw std::out_of_range("index out of range"); return b_[i]; }
    reference front() const { return *b_; }
    reference back() const { return e_[-1]; }
    std::basic_string<std::remove_const_t<value_type>> str() const { return {b_, e_}; }
    std::basic_string<std::remove_const_t<value_type>> toString() const { return str(); }
    std::basic_string<std::remove_const_t<value_type>> fbstr() const { return str(); }
    explicit operator std::basic_string<std::remove_const_t<value_type>>() const { return str(); }
    operator std::string_view() const { return std::string_view((const char*)b_, size()); }
    Range subpiece(size_type first, size_type n = npos) const { if (first > size()) throw std::out_of_range("index out of range"); return Range(b_ + first, std::min(n, size() - first)); }
    void advance(size_type n) { if (n > size()) throw std::out_of_range("index out of range"); b_ += n; }
    void subtract(size_type n) { if (n > size()) throw std::out_of_range("index out of range"); e_ -= n; }
    void uncheckedAdvance(size_type n) { b_ += n; }
    void uncheckedSubtract(size_type n) { e_ -= n; }
    void pop_front() { ++b_; }
    void pop_back() { --e_; }
    std::string_view sv() const { return std::string_view((const char*)b_, size()); }
    size_type find(std::string_view s, size_type from = 0) const { return sv().find(s, from); }
    size_type find(char c, size_type from = 0) const { return sv().find(c, from); }
    size_type rfind(std::string_view s) const { return sv().rfind(s); }
    size_type rfind(char c) const { return sv().rfind(c); }
    size_type find_first_of(std::string_view s, size_type from = 0) const { return sv().find_first_of(s, from); }
    size_type find_first_of(char c, size_type from = 0) const { return sv().find_first_of(c, from); }
    size_type find_last_of(std::string_view s) const { return sv().find_last_of(s); }
    size_type find_first_not_of(std::string_view s) const { return sv().find_first_not_of(s); }
    bool contains(std::string_view s) const { return sv().find(s) != npos; }
    bool contains(char c) const { return sv().find(c) != npos; }
    bool startsWith(std::string_view s) const { return sv().substr(0, s.size()) == s; }
    bool startsWith(char c) const { return !empty() && front() == c; }
    bool endsWith(std::string_view s) const { return size() >= s.size() && sv().substr(size() - s.size()) == s; }
    bool endsWith(char c) const { return !empty() && back() == c; }
    bool removePrefix(std::string_view s) { return startsWith(s) && (b_ += s.size(), true); }
    bool removeSuffix(std::string_view s) { return endsWith(s) && (e_ -= s.size(), true); }
    bool equals(const Range& o) const { return compare(o) == 0; }
    int compare(const Range& o) const {
        if constexpr (sizeof(value_type) == 1) { size_type n = std::min(size(), o.size()); int r = n ? memcmp(b_, o.b_, n) : 0; return r ? r : size() < o.size() ? -1 : size() > o.size(); }
        else { return std::lexicographical_compare(b_, e_, o.b_, o.e_) ? -1 : std::equal(b_, e_, o.b_, o.e_) ? 0 : 1; }
    }
 private:
    Iter b_, e_;
};
typedef Range<const char*> StringPiece;
typedef Range<char*> MutableStringPiece;
typedef Range<const unsigned char*> ByteRange;
typedef Range<unsigned char*> MutableByteRange;
#define MC_SP_OP(op) \
    inline bool operator op(const StringPiece& a, const StringPiece& b) { return a.compare(b) op 0; } \
    template <class T, class = std::enable_if_t<std::is_convertible<T, StringPiece>::value && !std::is_same<std::decay_t<T>, StringPiece>::value>> bool operator op(const StringPiece& a, const T& b) { return a.compare(StringPiece(b)) op 0; } \
    template <class T, class = std::enable_if_t<std::is_convertible<T, StringPiece>::value && !std::is_same<std::decay_t<T>, StringPiece>::value>> bool operator op(const T& a, const StringPiece& b) { return StringPiece(a).compare(b) op 0; }
MC_SP_OP(==) MC_SP_OP(!=) MC_SP_OP(<) MC_SP_OP(>) MC_SP_OP(<=) MC_SP_OP(>=)
inline std::ostream& operator<<(std::ostream& os, const StringPiece& p) { return os.write(p.data(), (std::streamsize)p.size()); }
template <class I> Range<I> range(I a, I b) { return Range<I>(a, b); }
inline StringPiece literals_sp(const char* p, std::size_t n) { return StringPiece(p, n); }
inline namespace literals { inline namespace string_piece_literals { constexpr StringPiece operator""_sp(const char* p, std::size_t n) { return StringPiece(p, n); } } }
}  // namespace folly
namespace std { template <> struct hash<folly::StringPiece> { size_t operator()(const folly::StringPiece& p) const { return hash<string_view>()(p.sv()); } }; }
