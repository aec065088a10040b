// C15: status values, all histories within bounds against a reference of code and message.
#include "common/base/Base.h"
#include "mc.h"
#include "heap.h"
#include "common/base/Status.h"
#include "common/base/StatusOr.h"
using mc::Ctx; using nebula::Status; using nebula::StatusOr;

struct Kind { const char* name; const char* prefix; Status::Code code; Status (*none)(); Status (*text)(folly::StringPiece); Status (*fmt)(const std::string&); bool (Status::*is)() const; };
#define K(N) {#N, #N ": ", Status::k##N, +[] { return Status::N(); }, +[](folly::StringPiece s) { return Status::N(s); }, +[](const std::string& s) { return Status::N("%s|%d", s.c_str(), 42); }, &Status::is##N}
static const Kind KINDS[] = {
    {"Error", "", Status::kError, +[] { return Status::Error(); }, +[](folly::StringPiece s) { return Status::Error(s); }, +[](const std::string& s) { return Status::Error("%s|%d", s.c_str(), 42); }, &Status::isError},
    K(Inserted), K(NoSuchFile), K(NotSupported), K(SyntaxError), K(SemanticError), K(StatementEmpty), K(KeyNotFound), K(PartialSuccess), K(SpaceNotFound), K(HostNotFound), K(TagNotFound), K(EdgeNotFound), K(UserNotFound),
    K(IndexNotFound), K(GroupNotFound), K(ZoneNotFound), K(LeaderChanged), K(Balanced), K(PartNotFound), K(ListenerNotFound), K(PermissionError)};
static const int NK = sizeof KINDS / sizeof *KINDS;
#undef K

struct Ref { int kind = -1; std::string msg; };   // -1: OK

static void check(Ctx& c, const Status& s, const Ref& m, const char* who) {
    MC_CHECK(c, s.ok() == (m.kind < 0), "ok", who << ": ok() is " << s.ok() << " for " << (m.kind < 0 ? "OK" : KINDS[m.kind].name));
    Status::Code code = m.kind < 0 ? Status::kOk : KINDS[m.kind].code;
    MC_CHECK(c, s.code() == code, "code", who << ": code() is " << s.code() << " instead of " << code);
    MC_CHECK(c, s.message() == (m.kind < 0 ? "" : m.msg), "message", who << ": message() is " << mc::hex(s.message().substr(0, 40)) << " (" << s.message().size() << " bytes) instead of " << mc::hex(m.msg.substr(0, 40)) << " (" << m.msg.size() << " bytes)");
    std::string t = m.kind < 0 ? "OK" : KINDS[m.kind].prefix + m.msg;
    MC_CHECK(c, s.toString() == t, "text", who << ": prints as '" << s.toString().substr(0, 60) << "' instead of '" << t.substr(0, 60) << "'");
    std::ostringstream os; os << s; MC_CHECK(c, os.str() == t, "stream", who << ": streams as '" << os.str().substr(0, 60) << "'");
    for (int k = 0; k < NK; ++k) MC_CHECK(c, (s.*KINDS[k].is)() == (k == m.kind), "kind", who << ": is" << KINDS[k].name << "() is wrong for " << (m.kind < 0 ? "OK" : KINDS[m.kind].name));
    MC_CHECK(c, s == s && !(s != s), "reflexive", who << " is not equal to itself");
}
static Status early(const Status& s) { NG_RETURN_IF_ERROR(s); return Status::OK(); }
static Status earlyOr(const StatusOr<int>& s) { NG_RETURN_IF_ERROR(s); return Status::OK(); }
static Status earlyLog(const Status& s) { NG_LOG_AND_RETURN_IF_ERROR(s); return Status::OK(); }

int main(int argc, char** argv) {
    mc::heap_init();
    std::vector<mc::Scenario> sc;
    sc.push_back({"kinds", [](Ctx& c) {   // every kind, constructor form and message
        static const std::vector<std::string> msgs = [] { std::vector<std::string> v{"", "m", "with 100% sign", std::string("a\0b", 3), std::string(255, 'q'), std::string(256, 'r'), std::string(257, 's'), std::string(4096, 't'), std::string(65535, 'u'), std::string(65536, 'v'), std::string(65540, 'w'), std::string(131072 + 3, 'x'), "\xe4\xb8\xad"}; return v; }();
        int k = c.choose(NK); const std::string& m = c.pick(msgs);
        Ref want{k, m.substr(0, 65535)};
        Status a = KINDS[k].text(m); check(c, a, want, "text constructor");
        Status b = a, d(std::move(a)); check(c, b, want, "copy"); check(c, d, want, "moved"); check(c, a, Ref{}, "moved-from");
        MC_CHECK(c, early(b).code() == b.code() && early(b).message() == b.message() && earlyLog(b).message() == b.message(), "return-if-error", "returning early changes the status");
        StatusOr<int> so(b); check(c, earlyOr(so), want, "early return from a value-or-status"); check(c, Status::from(so), want, "from(StatusOr const&)"); check(c, Status::from(std::move(so)), want, "from(StatusOr&&)");
        check(c, Status::from(b), want, "from(Status)");
        { Status n = KINDS[k].none(); check(c, n, Ref{k, ""}, "constructor without a message"); }
        if (m.find('\0') == std::string::npos) { Status f = KINDS[k].fmt(m); std::string t = m + "|42";
            // formatted messages may be limited, but never to less than 255 bytes, and they are a prefix of the whole
            if (t.size() <= 255) check(c, f, Ref{k, t}, "formatted");
            else { std::string g = f.message(); MC_CHECK(c, g.size() >= 255 && t.compare(0, g.size(), g) == 0, "formatted", "a formatted message of " << t.size() << " bytes became one of " << g.size() << " bytes"); check(c, f, Ref{k, g}, "formatted"); } }
        for (int j = 0; j < NK; ++j) { Status o = KINDS[j].text(m); MC_CHECK(c, (o == b) == (j == k) && (b == o) == (j == k) && (o != b) == (j != k), "equal", KINDS[k].name << " and " << KINDS[j].name << " are compared wrongly"); }
        Status ok; MC_CHECK(c, !(ok == b) && !(b == ok) && ok != b && ok == Status::OK() && earlyLog(ok).ok() && early(ok).ok() && earlyOr(StatusOr<int>(3)).ok(), "equal-ok", "OK and " << KINDS[k].name << " are compared wrongly");
        check(c, ok, Ref{}, "default"); check(c, Status::OK(), Ref{}, "OK()");
        c.step(30); c.state(std::to_string(k) + "/" + std::to_string(m.size())); c.outcome(KINDS[k].name);
    }, false, "22 kinds x 13 messages x 3 constructors"});
    sc.push_back({"histories", [](Ctx& c) {
        static const std::vector<Ref> contents{{-1, ""}, {0, ""}, {0, "error"}, {7, std::string(300, 'k')}, {21, "denied"}};
        int64_t live = mc::heap_live();
        {
            auto x = std::make_unique<Status>(), y = std::make_unique<Status>(); Ref mx, my;
            int depth = c.thorough() ? 6 : 5;
            for (int i = 0; i < depth; ++i) {
                int k = c.choose(9 + (int)contents.size());
                if (k >= 9) { const Ref& r = contents[k - 9]; Status s = r.kind < 0 ? Status::OK() : KINDS[r.kind].text(r.msg); MC_LOG(c, "x = " << s.toString().substr(0, 20)); if (k & 1) *x = s; else *x = std::move(s); mx = r; }
                else switch (k) {
                    case 0: MC_LOG(c, "y = x"); *y = *x; my = mx; break;
                    case 1: MC_LOG(c, "y = move(x)"); *y = std::move(*x); if (mx.kind >= 0 || my.kind >= 0) { my = mx; mx = Ref{}; } break;
                    case 2: MC_LOG(c, "x = x"); { Status& r = *x; *x = r; } break;
                    case 3: MC_LOG(c, "x = move(x)"); { Status& r = *x; *x = std::move(r); } break;
                    case 4: MC_LOG(c, "x from copy of y"); x.reset(new Status(*y)); mx = my; break;
                    case 5: MC_LOG(c, "x from move(y)"); x.reset(new Status(std::move(*y))); mx = my; my = Ref{}; break;
                    case 6: MC_LOG(c, "swap"); std::swap(*x, *y); std::swap(mx, my); break;
                    case 7: MC_LOG(c, "x through a value-or-status"); { StatusOr<int> s; if (mx.kind >= 0) { s = *x; *x = std::move(s).status(); } } break;
                    case 8: MC_LOG(c, "y from()"); *y = Status::from(*x); my = mx; break;
                }
                c.step();
                check(c, *x, mx, "x"); check(c, *y, my, "y");
                bool eq = (mx.kind == my.kind);
                MC_CHECK(c, (*x == *y) == eq && (*y == *x) == eq && (*x != *y) == !eq, "equal", "x and y are compared wrongly");
                c.state(std::to_string(mx.kind) + mx.msg + "," + std::to_string(my.kind) + my.msg);
            }
            c.outcome(std::to_string(mx.kind));
        }
        MC_CHECK(c, mc::heap_live() == live, "leak", "status values leave " << mc::heap_live() - live << " heap blocks behind");
    }, false, "all histories of 5 (6) of 14 operations on two statuses"});
    return mc::run(argc, argv, "C15", sc, {"Equality of statuses is equality of their codes."});
}
