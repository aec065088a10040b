// Stand-in for folly/stats/TimeseriesHistogram.h: one time series, and percentiles as the middle of the bucket that holds the value of that rank.
#pragma once
#include <stdexcept>
#include "folly/stats/MultiLevelTimeSeries.h"
namespace folly {
template <typename T, typename C = MultiLevelTimeSeries<T>> class TimeseriesHistogram {
 public:
    using ValueType = T; using ContainerType = C; using TimePoint = typename C::TimePoint; using Duration = typename C::Duration;
    TimeseriesHistogram(T bucketSize, T min, T max, const C& c) : size_(bucketSize), min_(min), max_(max), c_(c) {}
    void addValue(TimePoint now, const T& v) { c_.addValue(now, v); }
    void addValue(TimePoint now, const T& v, uint64_t times) { c_.addValue(now, v, times); }
    void update(TimePoint now) { c_.update(now); }
    void clear() { c_.clear(); }
    T sum(size_t level) const { return c_.sum(level); }
    uint64_t count(size_t level) const { return c_.count(level); }
    template <typename RT = double> RT avg(size_t level) const { return c_.template avg<RT>(level); }
    template <typename RT = double> RT rate(size_t level) const { return c_.template rate<RT>(level); }
    T getPercentileEstimate(double pct, size_t level) const {
        if (!(pct >= 0 && pct <= 100)) throw std::out_of_range("percentile out of range");
        auto v = c_.values(level); if (v.empty()) return T();
        std::sort(v.begin(), v.end());
        T x = v[std::min(v.size() - 1, static_cast<size_t>(pct / 100 * v.size()))];
        return x < min_ ? min_ : x >= max_ ? max_ : min_ + (x - min_) / size_ * size_ + size_ / 2;
    }

 private:
    T size_, min_, max_; C c_;
};
}  // namespace folly
