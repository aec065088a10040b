// C38: reservoir sampling with every sequence of random draws, the probabilities counted exactly.
#include "mc.h"
#include "common/algorithm/ReservoirSampling.h"
#include <map>
#include <memory>
using mc::Ctx;
using nebula::algorithm::ReservoirSampling;
using std::string;
using std::vector;
extern uint64_t (*mc_rand64_hook)(uint64_t lo, uint64_t hi);

// ---- the draws: an odometer over all of them, remembering the range of each
static vector<uint64_t> g_draw, g_range; static size_t g_at = 0; static bool g_wide = false; static int g_fixed = -1;
static uint64_t hook(uint64_t lo, uint64_t hi) {
    uint64_t r = hi - lo;
    if (hi == 0 || r > 64) { g_wide = g_fixed < 0; if (g_fixed < 0) return lo; }
    if (g_fixed >= 0) { ++g_at; switch (g_fixed) { case 0: return lo; case 1: return hi - 1; case 2: return g_at % 2 ? lo : hi - 1; case 3: return lo + (r - 1) / 2; default: return lo + (g_at * 7919) % r; } }
    if (g_at == g_draw.size()) { g_draw.push_back(0); g_range.push_back(r); }
    return lo + g_draw[g_at++];
}
static bool nextDraws() {
    while (!g_draw.empty()) { if (++g_draw.back() < g_range.back()) return true; g_draw.pop_back(); g_range.pop_back(); }
    return false;
}
// exact fractions
typedef unsigned __int128 U;
static U gcdU(U a, U b) { while (b) { U t = a % b; a = b; b = t; } return a; }
struct Frac { U n = 0, d = 1; void add(U dd) { U g = gcdU(d, dd); U l = d / g * dd; n = n * (l / d) + l / dd; d = l; U h = gcdU(n, d); if (h > 1) { n /= h; d /= h; } } };

struct Item { std::unique_ptr<int> p; explicit Item(int v) : p(new int(v)) {} Item(Item&&) = default; Item& operator=(Item&&) = default; };
// runs one stream; the ids kept, in order. Judges what must hold for any draws.
template <class T, class Get, class Make> static vector<int> stream(Ctx& c, uint64_t n, int m, Get get, Make make) {
    ReservoirSampling<T> s(n);
    vector<char> mayHold(m, 1); int took = 0;
    g_at = 0;
    for (int i = 0; i < m; ++i) {
        T x = make(i);
        bool t = s.sampling(std::move(x)); c.step(); took += t;
        MC_CHECK(c, t || i >= (int)n, "first-refused", "capacity " + std::to_string(n) + ": sample number " + std::to_string(i + 1) + " is not taken although there is room");
        if (!t) mayHold[i] = 0;
    }
    vector<T> r = std::move(s).samples();
    vector<int> ids; for (auto& e : r) ids.push_back(get(e));
    string what = "capacity " + std::to_string(n) + ", " + std::to_string(m) + " samples";
    MC_CHECK(c, ids.size() == std::min<size_t>(n, m), "size", what + ": " + std::to_string(ids.size()) + " kept");
    std::vector<int> sorted = ids; std::sort(sorted.begin(), sorted.end());
    for (size_t i = 0; i < sorted.size(); ++i) {
        MC_CHECK(c, sorted[i] >= 0 && sorted[i] < m, "foreign", what + ": kept something that was never seen");
        MC_CHECK(c, i == 0 || sorted[i] != sorted[i - 1], "twice", what + ": sample " + std::to_string(sorted[i]) + " is kept twice");
        MC_CHECK(c, mayHold[sorted[i]], "told-refused", what + ": sample " + std::to_string(sorted[i]) + " is kept although it was said to be refused");
    }
    if (m <= (int)n) MC_CHECK(c, ids == sorted, "order-while-filling", what + ": the first samples are not kept in their order");
    if (m) MC_CHECK(c, took >= (int)ids.size(), "took", what + ": fewer taken than kept");
    // the last one taken is kept
    for (int i = m - 1; i >= 0 && n > 0; --i) if (mayHold[i]) { MC_CHECK(c, std::binary_search(sorted.begin(), sorted.end(), i), "told-taken", what + ": sample " + std::to_string(i) + " was said to be taken, and is not there"); break; }
    return sorted;
}
static void uniform(Ctx& c) {
    int maxN = c.thorough() ? 5 : 4, maxM = c.thorough() ? 9 : 8;
    int n = c.choose(maxN + 1, "capacity"), m = c.choose(maxM + 1, "samples"); bool heavy = c.choose(2, "items");
    mc_rand64_hook = hook; g_fixed = -1; g_draw.clear(); g_range.clear(); g_wide = false;
    std::map<vector<int>, Frac> prob; uint64_t runs = 0;
    do {
        auto kept = heavy ? stream<Item>(c, n, m, [](Item& i) { return *i.p; }, [](int v) { return Item(v); })
                          : stream<int>(c, n, m, [](int& i) { return i; }, [](int v) { return v; });
        if (g_wide) throw mc::Abandon();   // draws from ranges too wide to enumerate
        U w = 1; for (auto r : g_range) w *= r;
        prob[kept].add(w); ++runs;
    } while (nextDraws());
    mc_rand64_hook = nullptr;
    if (runs > 1 || m > n) c.outcome("capacity " + std::to_string(n) + ", " + std::to_string(m) + " samples: " + std::to_string(runs) + " sequences of draws");
    // all choices of min(n, m) of the m samples, with the same probability
    U choices = 1; int k = std::min(n, m); for (int i = 0; i < k; ++i) choices = choices * (m - i) / (i + 1);
    string what = "capacity " + std::to_string(n) + ", " + std::to_string(m) + " samples: ";
    for (auto& p : prob) {
        string ids; for (int i : p.first) ids += (ids.empty() ? "" : ",") + std::to_string(i);
        MC_CHECK(c, p.second.n == 1 && p.second.d == choices, "probability", what + "{" + ids + "} is kept with probability " + std::to_string((uint64_t)p.second.n) + "/" + std::to_string((uint64_t)p.second.d) + ", not 1/" + std::to_string((uint64_t)choices));
    }
    MC_CHECK(c, prob.size() == (size_t)choices, "never", what + std::to_string(prob.size()) + " of " + std::to_string((uint64_t)choices) + " choices ever happen");
}
static void large(Ctx& c) {
    static const uint64_t N[] = {0, 1, 2, 7, 64, 1000}; static const int M[] = {0, 1, 2, 63, 64, 65, 999, 1000, 1001, 3000};
    uint64_t n = N[c.choose(6, "capacity")]; int m = M[c.choose(10, "samples")]; g_fixed = c.choose(5, "draws");
    mc_rand64_hook = hook;
    stream<Item>(c, n, m, [](Item& i) { return *i.p; }, [](int v) { return Item(v); });
    mc_rand64_hook = nullptr; g_fixed = -1;
}
int main(int argc, char** argv) {
    return mc::run(argc, argv, "C38", {
        {"uniform", uniform, false, "capacities 0-4 (5), streams of 0-8 (9) samples, small and owning items: every sequence of random draws, the probability of every set of samples as an exact fraction"},
        {"large", large, false, "capacities up to 1000 and streams up to 3000 samples with draws fixed at their lowest, highest, alternating, middle and scattered values"},
    }, {"the random source is uniform over the range it is asked for: its draws are what is enumerated",
        "draws are taken from folly::Random"});
}
