// C01: heap byte buffer (Cord) against plain concatenation, all operation sequences within bounds.
#include "cord_model.h"
#include "common/base/Cord.h"
using namespace cordmc;
using nebula::Cord;

static void appendOther(Cord& into, const std::string& p, int kind) {
    // same default, smaller, larger blocks; content written in one or two pieces
    static const int sizes[] = {0, 9, 12, 40};
    std::unique_ptr<Cord> o(sizes[kind] ? new Cord(sizes[kind]) : new Cord());
    o->write(p.data(), p.size() / 2);
    o->write(p.data() + p.size() / 2, p.size() - p.size() / 2);
    Cord& r = (into << *o);
    if (&r != &into) mc::ctx().fail("chain", "<< does not return the cord");
    if (o->str() != p) mc::ctx().fail("content", "the appended cord has changed");
}

static void sequences(Ctx& c, int content, int depth) {
    long before = mc::heap_live();
    {
        Cord cord(content + 8);
        std::string m;
        size_t B = content;
        std::vector<size_t> lens = {0, 1, B, B + 1, 2 * B + 1};
        if (B > 2) lens.push_back(B - 1);
        std::vector<size_t> olens = {0, 1, B, 2 * B};
        int nops = lens.size() + 6 + 4 * olens.size();
        MC_LOG(c, "block content " << content);
        readAll(c, cord, m, "new");
        for (int i = 0; i < depth; ++i) {
            if (m.size() > 200) break;
            applyOp<Cord>(c, cord, m, c.choose(nops), lens, olens, appendOther, 4);
            c.step();
            // states: content length modulo block and number of blocks; reads at every prefix
            if (i + 1 == depth || c.exec_index() % 8 == 0) readAll(c, cord, m, "after the operations");
            c.state(std::to_string(content) + ":" + std::to_string(m.size()));
        }
        readAll(c, cord, m, "at the end");
        c.outcome(std::to_string(m.size()));
        m = std::string();
    }
    MC_CHECK(c, mc::heap_live() == before, "leak", "destroying the cord left " << mc::heap_live() - before << " heap blocks");
}

int main(int argc, char** argv) {
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"sequences-small-blocks", [](Ctx& c) { sequences(c, 1 + c.choose(5), c.thorough() ? 5 : 4); }, false,
        "blocks holding 1..5 bytes; all sequences of 4 (5) operations out of 27: raw writes around block size, clear, self-append, strings, numbers, appending cords of 4 block sizes and 4 lengths"});
    sc.push_back({"default-block", [](Ctx& c) {
        long before = mc::heap_live();
        {
            Cord cord;
            std::string m;
            const std::vector<size_t> lens = {1, 7, 1007, 1015, 1016, 1017, 2032, 5000};
            int d = c.thorough() ? 4 : 3;
            for (int i = 0; i < d; ++i) {
                int k = c.choose(lens.size() + 4);
                if (k < (int)lens.size()) { std::string p = pattern(lens[k], i); cord.write(p.data(), p.size()); m += p; MC_LOG(c, "write " << lens[k]); }
                else if (k == (int)lens.size()) { cord << cord; m += std::string(m); MC_LOG(c, "append self"); }
                else if (k == (int)lens.size() + 1) { cord.clear(); m.clear(); MC_LOG(c, "clear"); }
                else if (k == (int)lens.size() + 2) { cord << (int64_t)i; m += raw((int64_t)i); MC_LOG(c, "int64"); }
                else { std::string p = pattern(1016, 9); Cord o(16); o << p; cord << o; m += p; MC_LOG(c, "append cord of small blocks"); }
                c.step();
                c.state("d" + std::to_string(m.size()));
                readAll(c, cord, m, "default block");
            }
            c.outcome(std::to_string(m.size()));
        }
        MC_CHECK(c, mc::heap_live() == before, "leak", "destroying the cord left heap blocks");
    }, false, "default blocks of 1016 bytes; all sequences of 3 (4) operations with lengths around the block size"});
    sc.push_back({"every-type", [](Ctx& c) {
        int content = 1 + c.choose(9);
        Cord cord(content + 8);
        std::string m = pattern(c.choose(content), 3);
        cord.write(m.data(), m.size());
        typed(c, cord, m);
        if (c.thorough()) typed(c, cord, m);
        readAll(c, cord, m, "typed appends");
        c.state("t" + std::to_string(content) + "/" + mc::hex(m));
        c.outcome(mc::hex(m));
    }, false, "every append operator with boundary values at every offset in blocks holding 1..9 bytes; thorough: pairs"});
    sc.push_back({"clear-releases", [](Ctx& c) {
        int content = 1 + c.choose(4);
        int n = c.choose(14), again = c.choose(14);
        std::string p = pattern(n, 1), q = pattern(again, 2);
        Cord cord(content + 8);
        long before = mc::heap_live();
        cord.write(p.data(), p.size());
        cord.clear();
        long after = mc::heap_live();
        MC_CHECK(c, after == before, "leak", "clear() after " << n << " bytes left " << after - before << " heap blocks");
        cord.clear();
        cord.write(q.data(), q.size());
        readAll(c, cord, q, "after clear");
        c.state("c" + std::to_string(content) + "/" + std::to_string(n) + "/" + std::to_string(again)); c.step(3); c.outcome("clean");
    }, false, "write n, clear (twice), write m, for n, m < 14 and blocks holding 1..4 bytes"});
    return mc::run(argc, argv, "C01", sc, {"block sizes larger than a pointer"});
}
