// Stand-in for folly::ConcurrentHashMap: iterators hold shared entries, so they survive erasure.
#pragma once
#include <memory>
#include <mutex>
#include <unordered_map>
namespace folly {
template <class K, class V, class H = std::hash<K>, class E = std::equal_to<K>> class ConcurrentHashMap {
 public:
    typedef std::pair<const K, V> value_type;
    class Iterator { friend class ConcurrentHashMap; std::shared_ptr<value_type> p_; public: const value_type& operator*() const { return *p_; } const value_type* operator->() const { return p_.get(); } bool operator==(const Iterator& o) const { return p_ == o.p_; } bool operator!=(const Iterator& o) const { return p_ != o.p_; } };
    typedef Iterator ConstIterator; typedef Iterator const_iterator;
    explicit ConcurrentHashMap(size_t = 8) {}
    ConstIterator find(const K& k) const { std::lock_guard<std::mutex> g(m_); auto i = d_.find(k); Iterator r; if (i != d_.end()) r.p_ = i->second; return r; }
    ConstIterator cend() const { return Iterator(); } ConstIterator end() const { return Iterator(); }
    template <class K2, class... A> std::pair<ConstIterator, bool> emplace(K2&& k, A&&... a) { std::lock_guard<std::mutex> g(m_); auto p = std::make_shared<value_type>(std::piecewise_construct, std::forward_as_tuple(std::forward<K2>(k)), std::forward_as_tuple(std::forward<A>(a)...)); auto r = d_.emplace(p->first, p); Iterator it; it.p_ = r.first->second; return {it, r.second}; }
    template <class K2, class V2> std::pair<ConstIterator, bool> insert(K2&& k, V2&& v) { return emplace(std::forward<K2>(k), std::forward<V2>(v)); }
    template <class K2, class V2> std::pair<ConstIterator, bool> insert_or_assign(K2&& k, V2&& v) { erase(K(k)); return emplace(std::forward<K2>(k), std::forward<V2>(v)); }
    template <class K2, class... A> std::pair<ConstIterator, bool> try_emplace(K2&& k, A&&... a) { return emplace(std::forward<K2>(k), std::forward<A>(a)...); }
    size_t erase(const K& k) { std::lock_guard<std::mutex> g(m_); return d_.erase(k); }
    ConstIterator erase(const ConstIterator& i) { K k = i.p_->first; erase(k); return Iterator(); }
    size_t size() const { std::lock_guard<std::mutex> g(m_); return d_.size(); } bool empty() const { return size() == 0; }
    void clear() { std::lock_guard<std::mutex> g(m_); d_.clear(); }
    V operator[](const K& k) { std::lock_guard<std::mutex> g(m_); auto& p = d_[k]; if (!p) p = std::make_shared<value_type>(k, V()); return p->second; }
    V at(const K& k) const { auto i = find(k); if (i == end()) throw std::out_of_range("at(): key not in map"); return i->second; }
 private:
    mutable std::mutex m_; std::unordered_map<K, std::shared_ptr<value_type>, H, E> d_;
};
}
