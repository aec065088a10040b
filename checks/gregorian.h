// Proleptic Gregorian calendar, independent of the code under test.
#pragma once
#include <cstdint>
namespace greg {
inline bool leap(int64_t y) { return (y % 4 == 0 && y % 100 != 0) || y % 400 == 0; }
inline int mdays(int64_t y, int m) { static const int d[] = {31, 28, 31, 30, 31, 30, 31, 31, 30, 31, 30, 31}; return m == 2 && leap(y) ? 29 : d[m - 1]; }
inline int64_t days(int64_t y, int m, int d) {   // since 1970-01-01
    y -= m <= 2;
    int64_t era = (y >= 0 ? y : y - 399) / 400, yoe = y - era * 400, doy = (153 * (m + (m > 2 ? -3 : 9)) + 2) / 5 + d - 1, doe = yoe * 365 + yoe / 4 - yoe / 100 + doy;
    return era * 146097 + doe - 719468;
}
struct Civil { int64_t y; int m, d; };
inline Civil civil(int64_t z) {
    z += 719468;
    int64_t era = (z >= 0 ? z : z - 146096) / 146097, doe = z - era * 146097, yoe = (doe - doe / 1460 + doe / 36524 - doe / 146096) / 365, y = yoe + era * 400, doy = doe - (365 * yoe + yoe / 4 - yoe / 100), mp = (5 * doy + 2) / 153;
    int d = (int)(doy - (153 * mp + 2) / 5 + 1), m = (int)(mp < 10 ? mp + 3 : mp - 9);
    return {y + (m <= 2), m, d};
}
inline int64_t fdiv(int64_t a, int64_t b) { return a / b - (a % b < 0); }
inline int64_t fmod(int64_t a, int64_t b) { return a - fdiv(a, b) * b; }
}
