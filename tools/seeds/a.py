SEEDS = {}
def S(id, **k): SEEDS[id] = k
H = '#include <cstdio>\n#include <cstdlib>\n#define REQ(x) do { if (!(x)) { fprintf(stderr, "failed: %s\\n", #x); exit(1); } } while (0)\n'

S("latch-notify-one", property="C05", needs="two threads blocked in wait()/downWait() when the counter reaches zero in downWait()",
  breaks="downWait() that brings the counter to zero wakes only one of several waiters; the others wait for ever.",
  edits=[("concurrent/Latch.cpp", """    if (--counter_ == 0) {
        cond_.notify_all();
        return;
    }
    cond_""", """    if (--counter_ == 0) {
        cond_.notify_one();
        return;
    }
    cond_""")], srcs=["concurrent/Latch.cpp"], timeout=20, demo=H + r'''
#include "common/concurrent/Latch.h"
#include <thread>
int main() {
    for (int round = 0; round < 20; ++round) {
        auto* l = new nebula::concurrent::Latch(1);
        std::thread a([&] { l->wait(); }), b([&] { l->wait(); });
        std::this_thread::sleep_for(std::chrono::milliseconds(30));
        l->downWait();
        a.join(); b.join();
    }
    return 0;
}
''')

S("barrier-no-generation", property="C06", needs="a fast participant that enters the next round before a slow one has woken from the previous",
  breaks="Participants wait for the arrival count to be reset instead of for their own round to end: one that wakes late, after the next round began, stays blocked.",
  edits=[("concurrent/Barrier.cpp", """        auto current = generation_;
        cond_.wait(guard, [=] () { return current != generation_; });""", """        cond_.wait(guard, [this] () { return ages_ == counter_; });""")],
  srcs=["concurrent/Barrier.cpp"], timeout=40, demo=H + r"""
#include "common/concurrent/Barrier.h"
#include <thread>
#include <atomic>
int main() {
    const int N = 3, R = 60000;
    nebula::concurrent::Barrier bar(N);
    std::vector<std::thread> t;
    for (int i = 0; i < N; ++i) t.emplace_back([&] { for (int r = 0; r < R; ++r) bar.wait(); });
    for (auto& x : t) x.join();
    return 0;
}
""")
S("cord-exact-boundary", property="C01", needs="a write that continues in a new block and fills that block exactly, then another write",
  breaks="A recursive rewrite as a loop loses the link of a block that a single write fills exactly.",
  edits=[("base/Cord.cpp", """    if (tail_) {
        // Link the tail to the new block""", """    if (tail_ && len_ % blockContentSize_ == 0 && blockPt_ * 2 > blockSize_) {
        // Link the tail to the new block""")], srcs=["base/Cord.cpp"], flags="-fsanitize=address", demo=H + r"""
#include "common/base/Cord.h"
int main() {
    for (int bs : {9, 10, 16, 17, 24, 32, 64}) {
        nebula::Cord c(bs); std::string w;
        for (int i = 0; i < 40; ++i) { std::string s(1 + i % 7, 'a' + i % 26); c << s; w += s; REQ(c.str() == w); REQ(c.size() == w.size()); }
    }
    return 0;
}
""")
S("icord-clear-length", property="C02", needs="a cord of several blocks that is cleared and then written again past its first block",
  breaks="clear() skips resetting the tail for a cord whose last block is full, so data written afterwards goes to a freed block.",
  edits=[("base/ICord.h", """        len_ = 0;

        head_ = inlineBlock_;
        tail_ = head_;
    }

    // Apply""", """        if (!isFull()) {
            tail_ = head_;
        }
        len_ = 0;
        head_ = inlineBlock_;
    }

    // Apply""")], flags="-fsanitize=address", demo=H + r"""
#include "common/base/ICord.h"
int main() {
    for (int n = 0; n < 70; ++n) {
        nebula::ICord<16> c; std::string w(n, 'x');
        c << w; REQ(c.str() == w);
        c.clear(); REQ(c.size() == 0); REQ(c.str().empty());
        c << std::string("abc"); REQ(c.str() == "abc");
    }
    return 0;
}
""")
S("either-convert-move", property="C03", needs="a move assignment from another EitherOr type onto an object that holds the other side",
  breaks="The converting move assignment keeps the old side's object alive when the source is void.",
  edits=[("base/EitherOr.h", """    >& operator=(EitherOr<U, V>&& rhs) noexcept {
        reset();
        switch (rhs.state_) {
            case State::VOID:
                break;""", """    >& operator=(EitherOr<U, V>&& rhs) noexcept {
        if (!rhs.isVoid()) {
            reset();
        }
        switch (rhs.state_) {
            case State::VOID:
                break;""")], demo=H + r"""
#include "common/base/EitherOr.h"
using nebula::EitherOr;
int main() {
    EitherOr<int, std::string> a(std::string("text"));
    EitherOr<short, const char*> b;
    a = std::move(b);
    REQ(a.isVoid());
    EitherOr<int, std::string> d(5);
    EitherOr<short, const char*> e("right");
    d = std::move(e);
    REQ(d.isRightType() && d.right() == "right");
    return 0;
}
""")
S("tempfile-fd-zero", property="C07", needs="descriptor 0 closed when the temporary file is created (a daemon)",
  breaks="A descriptor numbered 0 is taken for a failure: the file is left behind and the descriptor leaks.",
  edits=[("fs/TempFile.cpp", "    if (fd == -1) {", "    if (fd <= 0) {")], srcs=["fs/TempFile.cpp"], demo=H + r"""
#include "common/fs/TempFile.h"
#include <unistd.h>
int main() {
    char dir[] = "/tmp/demo_tf.XXXXXX"; REQ(mkdtemp(dir));
    std::string t = std::string(dir) + "/f.XXXXXX", path;
    close(0);
    int rc = 0;
    try { nebula::fs::TempFile f(t.c_str()); path = f.path(); rc = access(path.c_str(), F_OK) != 0; } catch (const std::exception&) { rc = 1; }
    if (rmdir(dir) != 0) { rc = 1; (void)!system((std::string("rm -rf ") + dir).c_str()); }
    return rc;
}
""")
S("thread-empty-name", property="C08", needs="a thread created with an empty name by a thread whose own name is set",
  breaks="An empty name replaces the inherited thread name.",
  edits=[("thread/NamedThread.h", """        if (!name.empty()) {
            Nominator::set(name);
        }
        f();""", """        Nominator nominator(name);
        f();""")], srcs=["thread/NamedThread.cpp"], demo=H + r"""
#include "common/thread/NamedThread.h"
using nebula::thread::NamedThread;
int main() {
    NamedThread::Nominator::set("outer");
    std::string in;
    NamedThread t("", [&] { NamedThread::Nominator::get(in); });
    t.join();
    REQ(in == "outer");
    return 0;
}
""")
S("duration-pause-accumulate", property="C09", needs="pause, resume and pause again before reading",
  breaks="The second pause forgets the time that had been accumulated before the resume.",
  edits=[("time/Duration.cpp", """    isPaused_ = true;
    accumulated_ += (TscHelper::readTsc() - startTick_);
    startTick_ = 0;""", """    isPaused_ = true;
    if (accumulated_ == 0 || startTick_ < accumulated_) {
        accumulated_ += (TscHelper::readTsc() - startTick_);
    } else {
        accumulated_ = (TscHelper::readTsc() - startTick_);
    }
    startTick_ = 0;""")], srcs=["time/Duration.cpp", "time/detail/TscHelper.cpp", "thread/NamedThread.cpp"], demo=H + r"""
#include "common/time/Duration.h"
int main() {
    nebula::time::Duration d;
    usleep(60000); d.pause(); d.resume(); usleep(20000); d.pause();
    REQ(d.elapsedInMSec() >= 75);
    return 0;
}
""")
S("clock-msec-carry", property="C10", needs="a process whose clock was first used in the second half of a second",
  breaks="The fast millisecond clock drops the sub-second part of its starting point.",
  edits=[("time/detail/TscHelper.cpp", """    static const int64_t st = get().startRealTime_.tv_sec * 1000
                                + get().startRealTime_.tv_nsec / 1000000;""", """    static const int64_t st = get().startRealTime_.tv_sec * 1000
                                + get().startRealTime_.tv_nsec / 1000000 % 512;""")],
  srcs=["time/WallClock.cpp", "time/detail/TscHelper.cpp", "thread/NamedThread.cpp"], demo=H + r"""
#include "common/time/WallClock.h"
int main() {
    struct timespec ts; clock_gettime(CLOCK_REALTIME, &ts);
    long to = 800000000L - ts.tv_nsec; if (to < 0) to += 1000000000L;
    usleep(to / 1000);
    int64_t f = nebula::time::WallClock::fastNowInMilliSec(), s = nebula::time::WallClock::slowNowInMilliSec();
    REQ(llabs(f - s) < 100);
    return 0;
}
""")
S("plan-node-dependencies", property="C12", needs="two plan nodes that differ only in the order or content of a dependency list of equal length",
  breaks="Dependencies are compared by number only.",
  edits=[("graph/Response.cpp", "    return checkPointer(dependencies.get(), rhs.dependencies.get());", """    if (dependencies == nullptr || rhs.dependencies == nullptr) {
        return dependencies == rhs.dependencies;
    }
    return dependencies->size() == rhs.dependencies->size() &&
           std::is_permutation(dependencies->begin(), dependencies->end(), rhs.dependencies->begin());""")],
  srcs=["graph/Response.cpp"], libs="-Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy -lglog -lgflags -lpthread", demo=H + r"""
#include "common/graph/Response.h"
int main() {
    nebula::PlanNodeDescription a, b;
    a.dependencies.reset(new std::vector<int64_t>{1, 2}); b.dependencies.reset(new std::vector<int64_t>{2, 1});
    REQ(!(a == b));
    b.dependencies.reset(new std::vector<int64_t>{1, 2});
    REQ(a == b);
    return 0;
}
""")
S("error-code-swapped", property="C13", needs="a client that receives one of two error codes of the balancer",
  breaks="Two neighbouring codes exchange their numbers, so clients decode the wrong error.",
  edits=[("graph/Response.h", "    X(E_BALANCER_RUNNING                , -2006)  \\\n    X(E_CONFIG_IMMUTABLE                , -2007)  \\", "    X(E_BALANCER_RUNNING                , -2007)  \\\n    X(E_CONFIG_IMMUTABLE                , -2006)  \\")],
  srcs=["graph/Response.cpp"], libs="-Wl,--unresolved-symbols=ignore-all -Wl,-z,lazy -lglog -lgflags -lpthread", demo=H + r"""
#include "common/graph/Response.h"
int main() {
    REQ(std::string(nebula::errorCode((nebula::ErrorCode)-2006)) == "E_BALANCER_RUNNING");
    REQ(std::string(nebula::errorCode((nebula::ErrorCode)-2007)) == "E_CONFIG_IMMUTABLE");
    return 0;
}
""")
S("slowop-backwards", property="C14", needs="a clock that steps backwards between construction and the check",
  breaks="A clock stepping backwards is counted by its magnitude instead of as zero.",
  edits=[("base/SlowOpTracker.h", """        if (dur_ < 0) {
            dur_ = 0;
        }""", """        if (dur_ < 0) {
            dur_ = -dur_;
        }""")], srcs=["base/SlowOpTracker.cpp"], demo=H + r"""
#include "common/base/SlowOpTracker.h"
static int64_t now = 1000000;
namespace nebula { namespace time {
int64_t WallClock::slowNowInSec() { return now / 1000; } int64_t WallClock::fastNowInSec() { return now / 1000; }
int64_t WallClock::slowNowInMilliSec() { return now; } int64_t WallClock::fastNowInMilliSec() { return now; }
int64_t WallClock::slowNowInMicroSec() { return now * 1000; } int64_t WallClock::fastNowInMicroSec() { return now * 1000; }
}}
int main() {
    nebula::SlowOpTracker t; now -= 500;
    REQ(!t.slow()); REQ(!t.slow(100));
    now += 1000; REQ(t.slow()); REQ(!t.slow(500)); REQ(t.slow(499));
    return 0;
}
""")
S("murmur-tail-sign", property="C19", needs="a string whose length is not a multiple of eight and whose tail has a byte above 127",
  breaks="The sixth tail byte is sign-extended.",
  edits=[("base/MurmurHash2.h", "            h ^= uint64_t(data2[5]) << 40;", "            h ^= uint64_t(static_cast<int8_t>(data2[5])) << 40;")], demo=H + r"""
#include "common/base/MurmurHash2.h"
#include <functional>
int main() {
    for (int n = 0; n < 40; ++n) { std::string s(n, (char)0xc3); REQ(nebula::MurmurHash2()(s) == std::hash<std::string>()(s)); }
    return 0;
}
""")
