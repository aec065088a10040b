// Stand-in for folly/stats/MultiLevelTimeSeries.h: the same interface over the plain record of what was added; level k answers for the values whose age is below its duration.
#pragma once
#include <algorithm>
#include <chrono>
#include <cstddef>
#include <cstdint>
#include <initializer_list>
#include <utility>
#include <vector>
namespace folly {
template <typename VT> class MultiLevelTimeSeries {
 public:
    using ValueType = VT; using Duration = std::chrono::seconds; using TimePoint = std::chrono::seconds;
    MultiLevelTimeSeries(size_t, std::initializer_list<Duration> ds) : durations_(ds) {}
    MultiLevelTimeSeries(size_t, size_t n, const Duration* ds) : durations_(ds, ds + n) {}
    size_t numLevels() const { return durations_.size(); }
    void addValue(TimePoint now, const VT& v) { addValue(now, v, 1); }
    void addValue(TimePoint now, const VT& v, uint64_t times) { update(now); for (uint64_t i = 0; i < times; ++i) data_.emplace_back(now, v); }
    void addValueAggregated(TimePoint now, const VT& total, uint64_t n) { update(now); for (uint64_t i = 0; i < n; ++i) data_.emplace_back(now, i ? VT() : total); }
    void update(TimePoint now) { if (now > latest_) latest_ = now; }
    void flush() {}
    void clear() { data_.clear(); }
    VT sum(size_t level) const { VT s = VT(); for (auto& d : data_) if (in(d.first, level)) s += d.second; return s; }
    uint64_t count(size_t level) const { uint64_t n = 0; for (auto& d : data_) n += in(d.first, level); return n; }
    template <typename RT = double> RT avg(size_t level) const { auto n = count(level); return n ? static_cast<RT>(static_cast<double>(sum(level)) / n) : RT(); }
    Duration elapsed(size_t level) const {
        if (data_.empty()) return Duration(0);
        auto first = data_.front().first; for (auto& d : data_) first = std::min(first, d.first);
        return std::min(durations_.at(level), latest_ - first + Duration(1));
    }
    template <typename RT = double> RT rate(size_t level) const { auto e = elapsed(level).count(); return e ? static_cast<RT>(static_cast<double>(sum(level)) / e) : RT(); }
    template <typename RT = double> RT countRate(size_t level) const { auto e = elapsed(level).count(); return e ? static_cast<RT>(static_cast<double>(count(level)) / e) : RT(); }
    std::vector<VT> values(size_t level) const { std::vector<VT> r; for (auto& d : data_) if (in(d.first, level)) r.push_back(d.second); return r; }

 private:
    bool in(TimePoint t, size_t level) const { return latest_ - t < durations_.at(level); }
    std::vector<Duration> durations_;
    std::vector<std::pair<TimePoint, VT>> data_;
    TimePoint latest_{0};
};
}  // namespace folly
