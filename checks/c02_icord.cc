// C02: inline-first byte buffer (ICord) against plain concatenation, all operation sequences within bounds.
#include "cord_model.h"
#include "common/base/ICord.h"
using namespace cordmc;
using nebula::ICord;

template <size_t B> void appendOther(ICord<B>& into, const std::string& p, int) {
    ICord<B> o;
    o.write(p.data(), p.size() / 2);
    o.write(p.data() + p.size() / 2, p.size() - p.size() / 2);
    ICord<B>& r = (into << o);
    if (&r != &into) mc::ctx().fail("chain", "<< does not return the cord");
    if (o.str() != p) mc::ctx().fail("content", "the appended cord has changed");
}

template <size_t B> void sequences(Ctx& c, int depth) {
    long before = mc::heap_live();
    {
        ICord<B> cord;
        std::string m;
        std::vector<size_t> lens = {0, 1, B, B + 1, 2 * B, 2 * B + 1};
        if (B > 2) lens.push_back(B - 1);
        std::vector<size_t> olens = {0, 1, B, B + 1, 2 * B};
        int nops = lens.size() + 6 + olens.size();
        MC_LOG(c, "block content " << B);
        readAll(c, cord, m, "new");
        for (int i = 0; i < depth; ++i) {
            if (m.size() > 300) break;
            applyOp<ICord<B>>(c, cord, m, c.choose(nops), lens, olens, appendOther<B>, 1);
            c.step();
            if (i + 1 == depth || c.exec_index() % 8 == 0) readAll(c, cord, m, "after the operations");
            c.state(std::to_string(B) + ":" + std::to_string(m.size()));
        }
        readAll(c, cord, m, "at the end");
        c.outcome(std::to_string(m.size()));
        m = std::string();
    }
    MC_CHECK(c, mc::heap_live() == before, "leak", "destroying the cord left " << mc::heap_live() - before << " heap blocks");
}
template <size_t B> void types(Ctx& c) {
    ICord<B> cord;
    std::string m = pattern(c.choose(2 * B), 3);
    cord.write(m.data(), m.size());
    typed(c, cord, m);
    if (c.thorough()) typed(c, cord, m);
    readAll(c, cord, m, "typed appends");
    c.state("t" + std::to_string(B) + "/" + mc::hex(m));
    c.outcome(mc::hex(m));
}
template <size_t B> void clears(Ctx& c) {
    int n = c.choose(18), again = c.choose(18);
    std::string p = pattern(n, 1), q = pattern(again, 2);
    ICord<B> cord;
    long before = mc::heap_live();
    cord.write(p.data(), p.size());
    cord.clear();
    long after = mc::heap_live();
    MC_CHECK(c, after == before, "leak", "clear() after " << n << " bytes left " << after - before << " heap blocks");
    readAll(c, cord, "", "cleared");
    cord.clear();
    cord.write(q.data(), q.size());
    readAll(c, cord, q, "after clear");
    cord.clear();
    readAll(c, cord, "", "cleared");
    c.state("c" + std::to_string(B) + "/" + std::to_string(n) + "/" + std::to_string(again)); c.step(5); c.outcome("clean");
}
int main(int argc, char** argv) {
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"sequences-small-blocks", [](Ctx& c) {
        int d = c.thorough() ? 6 : 4;
        switch (c.choose(4)) { case 0: sequences<1>(c, d); break; case 1: sequences<2>(c, d); break; case 2: sequences<4>(c, d); break; default: sequences<8>(c, d); }
    }, false, "blocks holding 1,2,4,8 bytes; all sequences of 4 (6) operations out of 18"});
    sc.push_back({"default-block", [](Ctx& c) {
        long before = mc::heap_live();
        {
            ICord<> cord;
            std::string m;
            const std::vector<size_t> lens = {1, 8, 1016, 1023, 1024, 1025, 2048, 5000};
            int d = c.thorough() ? 4 : 3;
            for (int i = 0; i < d; ++i) {
                int k = c.choose(lens.size() + 3);
                if (k < (int)lens.size()) { std::string p = pattern(lens[k], i); cord.write(p.data(), p.size()); m += p; MC_LOG(c, "write " << lens[k]); }
                else if (k == (int)lens.size()) { cord << cord; m += std::string(m); MC_LOG(c, "append self"); }
                else if (k == (int)lens.size() + 1) { cord.clear(); m.clear(); MC_LOG(c, "clear"); }
                else { cord << (int64_t)i; m += raw((int64_t)i); MC_LOG(c, "int64"); }
                c.step();
                c.state("d" + std::to_string(m.size()));
                readAll(c, cord, m, "default block");
            }
            c.outcome(std::to_string(m.size()));
        }
        MC_CHECK(c, mc::heap_live() == before, "leak", "destroying the cord left heap blocks");
    }, false, "default blocks of 1024 bytes; all sequences of 3 (4) operations with lengths around the block size"});
    sc.push_back({"every-type", [](Ctx& c) {
        switch (c.choose(4)) { case 0: types<1>(c); break; case 1: types<2>(c); break; case 2: types<4>(c); break; default: types<8>(c); }
    }, false, "every append operator with boundary values at every offset of two blocks; thorough: pairs"});
    sc.push_back({"clear-releases", [](Ctx& c) {
        switch (c.choose(4)) { case 0: clears<1>(c); break; case 1: clears<2>(c); break; case 2: clears<4>(c); break; default: clears<8>(c); }
    }, false, "write n, clear (twice), write m, clear, for n, m < 18"});
    return mc::run(argc, argv, "C02", sc, {"the buffer is not copied"});
}
