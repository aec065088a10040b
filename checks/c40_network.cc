// C40: host addresses: texts and numbers, the machine's own addresses and ports, with every answer of the system chosen.
#include "mc.h"
#include "common/network/NetworkUtils.h"
#include <arpa/inet.h>
#include <dlfcn.h>
#include <fcntl.h>
#include <ifaddrs.h>
#include <netdb.h>
#include <sys/stat.h>
#include <unistd.h>
#include <set>
using mc::Ctx;
using nebula::HostAddr;
using nebula::network::NetworkUtils;
using std::string;
using std::vector;
typedef vector<std::pair<string, int32_t>> Hosts;

// ---- the system's answers
static bool g_sys = false; static string g_dir;
struct Dev { const char* name; int family; uint32_t ip; };   // family -1: no address
static vector<Dev> g_devs; static int g_ifFail = 0, g_ifLive = 0, g_ifCalls = 0;
extern "C" int getifaddrs(struct ifaddrs** out) noexcept {
    ++g_ifCalls; if (g_ifFail) { errno = g_ifFail; return -1; }
    ifaddrs* first = nullptr; ifaddrs** at = &first;
    for (auto& d : g_devs) {
        auto* i = (ifaddrs*)calloc(1, sizeof(ifaddrs)); i->ifa_name = strdup(d.name);
        if (d.family == AF_INET) { auto* a = (sockaddr_in*)calloc(1, sizeof(sockaddr_in)); a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(d.ip); i->ifa_addr = (sockaddr*)a; }
        else if (d.family == AF_INET6) { auto* a = (sockaddr_in6*)calloc(1, sizeof(sockaddr_in6)); a->sin6_family = AF_INET6; i->ifa_addr = (sockaddr*)a; }
        else if (d.family == AF_PACKET) { auto* a = (sockaddr*)calloc(1, 20); a->sa_family = AF_PACKET; i->ifa_addr = a; }
        *at = i; at = &i->ifa_next;
    }
    *out = first; ++g_ifLive; return 0;
}
extern "C" void freeifaddrs(struct ifaddrs* l) noexcept { --g_ifLive; while (l) { auto* n = l->ifa_next; free(l->ifa_name); free(l->ifa_addr); free(l); l = n; } }
struct Res { int family; uint32_t ip; };
static vector<Res> g_res; static int g_resFail = 0, g_resLive = 0; static string g_resHost; static bool g_resStream = false;
extern "C" int getaddrinfo(const char* node, const char*, const struct addrinfo* hints, struct addrinfo** out) {
    g_resHost = node ? node : ""; g_resStream = !hints || hints->ai_socktype == SOCK_STREAM; if (g_resFail) return g_resFail;
    addrinfo* first = nullptr; addrinfo** at = &first;
    for (auto& r : g_res) {
        auto* i = (addrinfo*)calloc(1, sizeof(addrinfo)); i->ai_family = r.family; i->ai_socktype = SOCK_STREAM;
        if (r.family == AF_INET) { auto* a = (sockaddr_in*)calloc(1, sizeof(sockaddr_in)); a->sin_family = AF_INET; a->sin_addr.s_addr = htonl(r.ip); i->ai_addr = (sockaddr*)a; i->ai_addrlen = sizeof *a; }
        else { auto* a = (sockaddr_in6*)calloc(1, sizeof(sockaddr_in6)); a->sin6_family = r.family; i->ai_addr = (sockaddr*)a; i->ai_addrlen = sizeof *a; }
        *at = i; at = &i->ai_next;
    }
    *out = first; ++g_resLive; return 0;
}
extern "C" void freeaddrinfo(struct addrinfo* l) noexcept { --g_resLive; while (l) { auto* n = l->ai_next; free(l->ai_addr); free(l); l = n; } }
static string g_host; static int g_hostFail = 0;
extern "C" int gethostname(char* b, size_t n) noexcept { if (g_hostFail) { errno = g_hostFail; return -1; } if (g_host.size() + 1 > n) { memcpy(b, g_host.data(), n); errno = ENAMETOOLONG; return -1; } memcpy(b, g_host.c_str(), g_host.size() + 1); return 0; }
static int g_popenFail = 0, g_pcloseFail = 0, g_pipes = 0; static string g_range;
static void writeFile(const string& p, const string& t) { int fd = open(p.c_str(), O_CREAT | O_TRUNC | O_WRONLY, 0644); if (fd < 0 || write(fd, t.data(), t.size()) != (ssize_t)t.size()) abort(); close(fd); }
extern "C" FILE* popen(const char* cmd, const char*) { if (g_popenFail) { errno = EMFILE; return nullptr; } ++g_pipes; string p = g_dir + "/range" + std::to_string(getpid()); writeFile(p, g_range); FILE* f = fopen(p.c_str(), "r"); unlink(p.c_str()); return f; }
extern "C" int pclose(FILE* f) { --g_pipes; fclose(f); if (g_pcloseFail) { errno = ECHILD; return -1; } return 0; }
// /proc is read from the scratch directory
static string redirect(const char* p) { static thread_local string s; if (g_sys && !strncmp(p, "/proc/", 6)) { s = g_dir + "/p" + std::to_string(getpid()); for (const char* q = p + 5; *q; ++q) s += *q == '/' ? '_' : *q; return s; } return p; }
#define REAL(name) static auto real = (decltype(&name))dlsym(RTLD_NEXT, #name)
extern "C" int stat(const char* p, struct stat* b) noexcept { REAL(stat); return real(redirect(p).c_str(), b); }
extern "C" int lstat(const char* p, struct stat* b) noexcept { REAL(lstat); return real(redirect(p).c_str(), b); }
extern "C" FILE* fopen(const char* p, const char* m) { REAL(fopen); return real(redirect(p).c_str(), m); }
extern "C" FILE* fopen64(const char* p, const char* m) { REAL(fopen64); return real(redirect(p).c_str(), m); }
extern "C" int open(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open"); return real(redirect(p).c_str(), fl, m); }
extern "C" int open64(const char* p, int fl, ...) { va_list a; va_start(a, fl); mode_t m = fl & O_CREAT ? va_arg(a, int) : 0; va_end(a); static auto real = (int (*)(const char*, int, ...))dlsym(RTLD_NEXT, "open64"); return real(redirect(p).c_str(), fl, m); }

static string quad(uint32_t ip) { string s; for (int i = 3; i >= 0; --i) { s += std::to_string((ip >> (8 * i)) & 255); if (i) s += '.'; } return s; }
static string show(const string& s) { string r = "'"; for (char ch : s) { if (ch >= 32 && ch < 127) r += ch; else { char b[8]; snprintf(b, sizeof b, "\\x%02x", (unsigned char)ch); r += b; } } return r + "'"; }
static string show(const Hosts& h) { string r = "["; for (auto& x : h) r += (r.size() > 1 ? ", " : "") + show(x.first) + ":" + std::to_string(x.second); return r + "]"; }
static Hosts plain(const vector<HostAddr>& v) { Hosts h; for (auto& a : v) h.emplace_back(a.host, a.port); return h; }

// ---- numbers as dotted quads
static void octets(Ctx& c) {
    static const vector<uint32_t> E{0, 1, 9, 10, 99, 100, 128, 199, 200, 255};
    if (c.thorough()) {
        uint32_t hi = c.choose(256, "first octet") * 256; hi += c.choose(256, "second octet"); string pre = quad(hi << 16); pre = pre.substr(0, pre.size() - 3);
        for (uint32_t lo = 0; lo < 65536; ++lo) { string s = NetworkUtils::intToIPv4((hi << 16) | lo); string w = pre; w += std::to_string(lo >> 8); w += '.'; w += std::to_string(lo & 255); MC_CHECK(c, s == w, "quad", std::to_string((hi << 16) | lo) + " is written as " + show(s)); }
        c.step(65536); return;
    }
    int p = c.choose(4, "position"), q = c.choose(4, "other position"); if (q == p) throw mc::Abandon();
    uint32_t rest = c.pick(E), v = c.choose(256, "value");
    uint32_t base = 0; for (int i = 0; i < 4; ++i) base |= rest << (8 * i);
    for (uint32_t w = 0; w < 256; ++w) {
        uint32_t ip = base & ~(255u << (8 * p)) & ~(255u << (8 * q)); ip |= v << (8 * p) | w << (8 * q);
        string s = NetworkUtils::intToIPv4(ip); c.step();
        MC_CHECK(c, s == quad(ip), "quad", std::to_string(ip) + " is written as " + show(s) + ", not " + quad(ip));
    }
}
// ---- lists of hosts
static void roundTrip(Ctx& c) {
    static const vector<string> H{"127.0.0.1", "localhost", "h", "a-b.c_d.example.com", "\xc3\xa4"}; static const vector<int32_t> P{0, 1, 80, 9779, 65535, 65536, INT32_MAX, -1, INT32_MIN};
    Hosts h; vector<HostAddr> in; int n = c.choose(c.thorough() ? 5 : 4, "hosts");
    for (int i = 0; i < n; ++i) { auto& a = H[c.choose(n > 3 ? 2 : (int)H.size())]; auto p = P[c.choose(n > 3 ? 4 : (int)P.size())]; h.emplace_back(a, p); in.emplace_back(a, p); }
    string s = NetworkUtils::toHostsStr(in); c.step();
    string w; for (auto& x : h) w += (w.empty() ? "" : ", ") + x.first + ":" + std::to_string(x.second);
    MC_CHECK(c, s == w, "text", show(h) + " is written as " + show(s));
    auto r = NetworkUtils::toHosts(s);
    MC_CHECK(c, r.ok(), "refused", show(s) + " is refused: " + r.status().toString());
    MC_CHECK(c, plain(r.value()) == h, "round-trip", show(h) + " is written as " + show(s) + " and read as " + show(plain(r.value())));
}
static bool blank(char ch) { return ch == ' ' || ch == '\t' || ch == '\n' || ch == '\r'; }
enum Want { GOOD, BAD, EITHER };
// by the definition: items between commas, empty ones ignored, blanks around an item ignored, host:port
static Want readHosts(const string& t, Hosts& out) {
    Want w = GOOD; size_t at = 0;
    while (at <= t.size()) {
        size_t e = t.find(',', at); if (e == string::npos) e = t.size();
        string item = t.substr(at, e - at); at = e + 1;
        if (item.empty()) continue;
        size_t b = 0, n = item.size(); while (b < n && blank(item[b])) ++b; while (n > b && blank(item[n - 1])) --n;
        item = item.substr(b, n - b);
        if (item.empty()) { if (w == GOOD) w = EITHER; continue; }   // an item of blanks only
        size_t colon = item.find(':'); if (colon == string::npos) return BAD;
        string host = item.substr(0, colon), port = item.substr(colon + 1);
        if (host.empty() || (!port.empty() && (blank(port[0]) || port[0] == '+'))) { if (w == GOOD) w = EITHER; while (!port.empty() && blank(port[0])) port.erase(0, 1); if (!port.empty() && port[0] == '+') { port.erase(0, 1); if (port.empty() || port[0] == '-') return BAD; } }
        size_t d = port.size() && port[0] == '-'; if (d == port.size() || port.size() - d > 40) return BAD;
        __int128 v = 0; for (size_t i = d; i < port.size(); ++i) { if (port[i] < '0' || port[i] > '9') return BAD; v = v * 10 + (port[i] - '0'); if (v > (__int128)1 << 40) return BAD; }
        if (d) v = -v; if (v < INT32_MIN || v > INT32_MAX) return BAD;
        out.emplace_back(host, (int32_t)v);
    }
    return w;
}
static void judgeText(Ctx& c, const string& t) {
    Hosts want; Want w = readHosts(t, want); c.step();
    auto r = NetworkUtils::toHosts(t);
    if (w == EITHER && !r.ok()) return;
    MC_CHECK(c, r.ok() == (w != BAD), w == BAD ? "accepted" : "refused", show(t) + (w == BAD ? " is accepted as " + show(plain(r.value())) : " is refused: " + r.status().toString()));
    if (!r.ok()) return;
    MC_CHECK(c, plain(r.value()) == want, "parse", show(t) + " is read as " + show(plain(r.value())) + ", not " + show(want));
    if (w == GOOD) c.outcome(std::to_string(want.size()) + " hosts");
}
static void texts(Ctx& c) {
    static const string A = "a1:, -"; int len = c.choose(c.thorough() ? 11 : 9, "length"); string t;
    int head = std::min(len, 3); for (int i = 0; i < head; ++i) t += A[c.choose((int)A.size())];
    std::function<void(int)> rec = [&](int left) { if (!left) { judgeText(c, t); return; } for (char ch : A) { t.push_back(ch); rec(left - 1); t.pop_back(); } };
    rec(len - head);
}
static void items(Ctx& c) {
    static const vector<string> I{"", "h:1", " h:2", "h:3 ", "\th:4\n", "h", "h:", "h:x", "h:1x", "h:2147483647", "h:2147483648", "h:-2147483648", "h:-2147483649", "h:99999999999999999999", "h:007", "h:1:2", "::1:80", "h:1.0", "h:0x1", "h:1e3", "h:--1", "h:-", string("h:1\0", 4), string("h\0:1", 4), "h;1", "h:1 2", "a.b:1", "\r\nb:6\r\n"};
    int n = 1 + c.choose(c.thorough() ? 4 : 3, "items"); string t; for (int i = 0; i < n; ++i) { if (i) t += ','; t += c.pick(I); }
    judgeText(c, t);
}
// ---- addresses compared
static void addresses(Ctx& c) {
    static const vector<HostAddr> A = [] { vector<HostAddr> v; for (auto h : {string(""), string("a"), string("a\0", 2), string("aa"), string("b"), string("\xff"), string("10.0.0.1"), string("10.0.0.10"), string("a:1")}) for (nebula::Port p : {0, 1, -1, 65535, INT32_MAX, INT32_MIN}) v.emplace_back(h, p); return v; }();
    auto& a = c.pick(A); auto& b = c.pick(A); bool eq = a.host == b.host && a.port == b.port; c.step();
    string w = a.toString() + " and " + b.toString();
    MC_CHECK(c, (a == b) == eq && (a != b) == !eq, "equal", w + ": equal is " + std::to_string(a == b) + ", different is " + std::to_string(a != b));
    bool lt = a.host < b.host || (a.host == b.host && a.port < b.port);
    MC_CHECK(c, (a < b) == lt, "less", w + ": less is " + std::to_string(a < b));
    std::hash<HostAddr> h; if (eq) MC_CHECK(c, h(a) == h(b), "hash", w + ": equal addresses hash differently"); MC_CHECK(c, h(a) == h(HostAddr(a)), "hash", w + ": a copy hashes differently");
    MC_CHECK(c, a.toString() == "\"" + a.host + "\":" + std::to_string(a.port), "text", "written as " + a.toString());
    HostAddr x(a), y; y = x; MC_CHECK(c, x == a && y == a, "copy", "a copy differs"); HostAddr z(std::move(x)); MC_CHECK(c, z == a, "copy", "a moved one differs"); z.clear(); MC_CHECK(c, z == HostAddr() && z.host.empty() && z.port == 0, "clear", "cleared to " + z.toString());
    std::set<HostAddr> s{a, b}; std::unordered_set<HostAddr> u{a, b}; std::unordered_map<HostAddr, int> m; m[a] = 1; m[b] = 2;
    MC_CHECK(c, s.size() == (eq ? 1 : 2) && u.size() == s.size() && m.size() == s.size() && s.count(a) && u.count(b) && m[b] == 2 && m[a] == (eq ? 2 : 1), "container", w + ": containers mix them up");
}
// ---- the machine's own addresses
static void devices(Ctx& c) {
    static const vector<Dev> D{{"lo", AF_INET, 0x7f000001}, {"eth0", AF_INET, 0x0a0000ff}, {"eth0", AF_INET, 0xc0a80102}, {"eth0", AF_INET6, 0}, {"tun0", -1, 0}, {"eth1", AF_PACKET, 0}, {"any", AF_INET, 0xffffffff}};
    g_devs.clear(); int n = c.choose(c.thorough() ? 5 : 4, "interfaces"); for (int i = 0; i < n; ++i) g_devs.push_back(c.pick(D));
    g_ifFail = c.flip() ? EACCES : 0; if (g_ifFail && n) throw mc::Abandon();
    std::map<string, std::set<string>> want; std::multiset<string> all; for (auto& d : g_devs) if (d.family == AF_INET) { want[d.name].insert(quad(d.ip)); all.insert(quad(d.ip)); }
    bool ok = !g_ifFail && !want.empty(); string what = std::to_string(n) + " interfaces, " + std::to_string(all.size()) + " of them with IPv4"; g_ifLive = 0; c.step(3);
    auto m = NetworkUtils::listDeviceAndIPv4s();
    MC_CHECK(c, m.ok() == ok, "map-status", what + ": the map of devices reports " + m.status().toString());
    if (ok) { MC_CHECK(c, m.value().size() == want.size(), "map-size", what + ": the map holds " + std::to_string(m.value().size())); for (auto& e : m.value()) MC_CHECK(c, want.count(e.first) && want[e.first].count(e.second), "map", what + ": the map has " + e.second + " for " + e.first); }
    auto l = NetworkUtils::listIPv4s();
    MC_CHECK(c, l.ok() == ok, "list-status", what + ": the list of addresses reports " + l.status().toString());
    if (ok) MC_CHECK(c, std::multiset<string>(l.value().begin(), l.value().end()) == all, "list", what + ": the list holds " + std::to_string(l.value().size()) + " addresses, not all " + std::to_string(all.size()));
    for (auto* d : {"lo", "eth0", "eth1", "tun0", "any", "", "et"}) {
        auto r = NetworkUtils::getIPv4FromDevice(d); c.step(); string nm = d;
        if (nm == "any") { MC_CHECK(c, r.ok() && r.value() == "0.0.0.0", "any", "any is not 0.0.0.0"); continue; }
        MC_CHECK(c, r.ok() == (ok && want.count(nm)), "device-status", what + ": " + show(nm) + " reports " + r.status().toString());
        if (r.ok()) MC_CHECK(c, want[nm].count(r.value()) && m.value().at(nm) == r.value(), "device", what + ": " + show(nm) + " is " + r.value()); else if (ok) MC_CHECK(c, r.status().toString().find(nm) != string::npos, "device-message", "the refusal of " + show(nm) + " reads " + r.status().toString());
    }
    MC_CHECK(c, g_ifLive == 0, "leak", what + ": " + std::to_string(g_ifLive) + " lists of interfaces not freed");
    c.outcome(what);
}
static void resolve(Ctx& c) {
    static const vector<Res> R{{AF_INET, 0x7f000001}, {AF_INET, 0x01020304}, {AF_INET, 0xfffefdfc}, {AF_INET6, 0}, {AF_UNIX, 0}};
    static const vector<string> H{"localhost", "a.example.com", ""}; static const vector<int32_t> P{0, 9779, 65535};
    g_res.clear(); int n = c.choose(c.thorough() ? 5 : 4, "results"); for (int i = 0; i < n; ++i) g_res.push_back(c.pick(R));
    g_resFail = n ? 0 : c.flip() ? EAI_AGAIN : 0; g_resLive = 0; auto& h = c.pick(H); auto p = c.pick(P); c.step();
    Hosts want; for (auto& r : g_res) if (r.family == AF_INET) want.emplace_back(quad(r.ip), p);
    auto r = NetworkUtils::resolveHost(h, p); string what = show(h) + " with " + std::to_string(n) + " results, " + std::to_string(want.size()) + " of them IPv4";
    MC_CHECK(c, g_resHost == h, "resolved-other", "asked for " + show(g_resHost) + " instead of " + show(h));
    MC_CHECK(c, r.ok() == !want.empty(), "resolve-status", what + ": " + r.status().toString());
    if (r.ok()) MC_CHECK(c, plain(r.value()) == want, "resolve", what + ": resolved to " + show(plain(r.value())) + ", not " + show(want)); else MC_CHECK(c, r.status().toString().find(h) != string::npos, "resolve-message", "the refusal reads " + r.status().toString());
    MC_CHECK(c, g_resLive == 0, "leak", what + ": " + std::to_string(g_resLive) + " results not freed");
    c.outcome(what);
}
static void hostname(Ctx& c) {
    static const vector<string> H{"h", "host.example.com", string(63, 'x'), string(64, 'y'), string(255, 'z'), ""};
    g_host = c.pick(H); g_hostFail = c.flip() ? EPERM : 0; c.step();
    string r = NetworkUtils::getHostname();
    MC_CHECK(c, r == (g_hostFail ? "" : g_host), "hostname", "the host name " + show(g_host) + (g_hostFail ? " that cannot be had" : "") + " is given as " + show(r));
}
extern uint64_t (*mc_rand64_hook)(uint64_t lo, uint64_t hi);
// ---- ports
static vector<uint32_t> g_draws; static size_t g_drawAt; static Ctx* g_c; static uint64_t g_lo, g_hi;
static uint64_t draw(uint64_t lo, uint64_t hi) { g_lo = lo; g_hi = hi; if (g_drawAt >= 40) throw mc::Abandon(); size_t k = g_drawAt++; return lo + (k < g_draws.size() ? g_draws[k] : (g_drawAt * 37)) % (hi - lo); }
static const char* kNet[] = {"tcp", "tcp6", "udp", "udp6", "raw", "raw6"};
static string procPath(int i) { return g_dir + "/p" + std::to_string(getpid()) + "_net_" + kNet[i]; }
static string procText(int i, const vector<int>& ports) {
    string t = "  sl  local_address rem_address   st tx_queue rx_queue tr tm->when retrnsmt   uid  timeout inode\n"; int n = 0; char b[300]; bool six = i % 2;
    for (int p : ports) { snprintf(b, sizeof b, "%4d: %s:%04X %s:%04X 0A 00000000:00000000 00:00000000 00000000     0        0 %d 1 0000000000000000 100 0 0 10 0\n", n++, six ? "00000000000000000000FFFF0100007F" : "0100007F", p, six ? "00000000000000000000000000000000" : "00000000", 0xABCD, 30000 + n); t += b; }
    return t;
}
static void ports(Ctx& c) {
    static const vector<vector<int>> Sets{{}, {0x50}, {1025, 1026}, {65535, 0}, {0xABC, 0xCAFE, 7, 1030}};
    // which files exist, and which ports each holds: two files at a time hold some
    int a = c.choose(6, "file"), b = c.choose(6, "other file"), missing = c.choose(7, "missing file"); auto &pa = c.pick(Sets), &pb = c.pick(Sets);
    std::set<int> want;
    for (int i = 0; i < 6; ++i) { vector<int> p; if (i == a) p.insert(p.end(), pa.begin(), pa.end()); if (i == b) p.insert(p.end(), pb.begin(), pb.end()); unlink(procPath(i).c_str()); if (i == missing - 1) continue; writeFile(procPath(i), procText(i, p)); want.insert(p.begin(), p.end()); }
    g_sys = true; c.step(); auto r = NetworkUtils::getPortsInUse(); g_sys = false;
    MC_CHECK(c, std::set<int>(r.begin(), r.end()) == want, "in-use", std::to_string(r.size()) + " ports are reported in use, not the " + std::to_string(want.size()) + " of " + kNet[a] + " and " + kNet[b] + (missing ? string(" without ") + kNet[missing - 1] : ""));
    c.outcome(std::to_string(want.size()) + " ports");
    for (int i = 0; i < 6; ++i) unlink(procPath(i).c_str());
}
static void range(Ctx& c) {
    static const vector<std::pair<string, int>> T{{"32768\t60999\n", 1}, {"1024 65535", 2}, {"", 0}, {"x", 0}, {"1000", 0}, {"1000 y\n", 0}, {"\n\n  7\n8\n", 3}};
    auto& t = c.pick(T); g_range = t.first; g_popenFail = c.choose(2); g_pcloseFail = c.choose(2); g_pipes = 0; c.step();
    uint16_t lo = 1, hi = 2; bool ok = NetworkUtils::getDynamicPortRange(lo, hi); bool wantOk = !g_popenFail && !g_pcloseFail; g_popenFail = 0; g_pcloseFail = 0;
    MC_CHECK(c, ok == wantOk, "range-status", "the range of ports reports " + std::to_string(ok)); MC_CHECK(c, g_pipes == 0, "leak", "a pipe is left open");
    static const int L[] = {49152, 32768, 1024, 7}, H[] = {65535, 60999, 65535, 8};
    if (ok) MC_CHECK(c, lo == L[t.second] && hi == H[t.second], "range", show(t.first) + " is read as " + std::to_string(lo) + " to " + std::to_string(hi));
    c.outcome(ok ? "read" : "failed");
}
static void available(Ctx& c) {
    // few ports below the dynamic range, many of them taken
    int low = c.pick(vector<int>{1031, 1033, 32768, 65535}); g_range = std::to_string(low) + " 65535\n"; g_popenFail = g_pcloseFail = 0;
    vector<int> used; static const vector<vector<int>> U{{}, {1025, 1026}, {1026, 1028, 1030}, {1025, 1027, 1029}, {1026, 1027, 1031}}; used = c.pick(U); int file = c.choose(6);
    for (int i = 0; i < 6; ++i) writeFile(procPath(i), procText(i, i == file ? used : vector<int>()));
    g_draws.clear(); for (int i = 0; i < 3; ++i) g_draws.push_back(low <= 1033 ? c.choose(low - 1025) : c.pick(vector<int>{0, 1, 2, 3, low - 1026}));
    g_drawAt = 0; mc_rand64_hook = draw; g_sys = true; c.step();
    int p; try { p = NetworkUtils::getAvailablePort(); } catch (mc::Abandon&) { p = -1; } g_sys = false; mc_rand64_hook = nullptr;
    for (int i = 0; i < 6; ++i) unlink(procPath(i).c_str());
    if (p < 0) throw mc::Abandon();
    MC_CHECK(c, p >= 1025 && p < low, "port-range", "port " + std::to_string(p) + " is not below the dynamic range from " + std::to_string(low));
    for (int d = 0; d < 2; ++d) MC_CHECK(c, std::find(used.begin(), used.end(), p + d) == used.end(), d ? "next-in-use" : "port-in-use", "port " + std::to_string(p) + (d ? ": the next one is in use" : " is in use"));
    c.outcome(std::to_string(g_drawAt) + " draws");
}
int main(int argc, char** argv) {
    char t[] = "/tmp/mc_c40_XXXXXX"; g_dir = mkdtemp(t);
    int rc = mc::run(argc, argv, "C40", {
        {"octets", octets, false, "every pair of octet values in every pair of positions with ten values elsewhere; thorough: all 2^32 addresses"},
        {"roundtrip", roundTrip, false, "lists of up to 3 (4) hosts of 5 names and 9 ports, written and read"},
        {"texts", texts, false, "all texts of up to 8 (10) characters over letter, digit, colon, comma, blank and minus against an independent reader"},
        {"items", items, false, "all lists of up to 3 (4) of 28 items: ports at the ends of the number range, signs, NULs, several colons, blanks around"},
        {"addresses", addresses, false, "all pairs of 54 addresses compared, hashed, copied, written and put into containers"},
        {"devices", devices, false, "up to 3 (4) interfaces of 7 kinds (several addresses, IPv6, no address), failing look-ups"},
        {"resolve", resolve, false, "up to 3 (4) results of 5 kinds, none, and failure"},
        {"hostname", hostname, false, "host names up to 255 characters and failure"},
        {"ports", ports, false, "port tables of the 6 protocols, two of them holding one of 5 sets of ports, one of them missing"},
        {"range", range, false, "7 texts of the port range, and failing pipes"},
        {"available", available, false, "every sequence of 3 draws over few free ports"},
    }, {"the number parsing of folly is a stand-in written after its documentation; texts whose reading depends on its leniency (a blank or plus sign before the port, an item of blanks) may be read or refused",
        "a host with several IPv4 addresses on one device: any of them stands for the device"});
    rmdir(g_dir.c_str());
    return rc;
}
