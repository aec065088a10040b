// C13: error codes against the interface definition; HTTP status helper.
#include "mc.h"
#include "common/graph/Response.h"
#include "common/webservice/Common.h"
#include <fstream>
#include <map>
#include <regex>
using mc::Ctx;

// name -> value of the ErrorCode enum of the published interface definition
static std::vector<std::pair<std::string, long>> idl() {
    std::string repo = getenv("MC_REPO") ? getenv("MC_REPO") : "/repo";
    std::ifstream f(repo + "/src/common/interface/common.thrift");
    std::string s((std::istreambuf_iterator<char>(f)), std::istreambuf_iterator<char>());
    s = std::regex_replace(s, std::regex("//[^\n]*|#[^\n]*"), "");
    for (size_t a; (a = s.find("/*")) != std::string::npos;) { size_t b = s.find("*/", a); s.erase(a, b == std::string::npos ? b : b + 2 - a); }
    std::smatch m;
    std::vector<std::pair<std::string, long>> v;
    if (!std::regex_search(s, m, std::regex("enum\\s+ErrorCode\\s*\\{([^}]*)\\}"))) return v;
    std::string body = m[1];
    long next = 0;
    const std::regex item("(\\w+)\\s*(=\\s*([-+]?(0x)?\\w+))?\\s*[,;]?");
    for (std::sregex_iterator it(body.begin(), body.end(), item), e; it != e; ++it) {
        std::string val = (*it)[3];
        if (!val.empty()) next = strtol(val.c_str(), nullptr, 0);
        v.emplace_back((*it)[1], next++);
    }
    return v;
}
static const std::vector<std::pair<std::string, long>>& idlOnce() { static auto v = idl(); return v; }

int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"codes", [](Ctx& c) {     // every 16-bit value and the surroundings of every power of two
        const auto& def = idlOnce();
        MC_CHECK(c, def.size() > 20, "idl", "the interface definition lists only " << def.size() << " error codes");
        std::map<long, std::string> byValue;
        for (auto& d : def) {
            MC_CHECK(c, !byValue.count(d.second), "duplicate:" + d.first, "published codes " << byValue[d.second] << " and " << d.first << " share the value " << d.second);
            byValue[d.second] = d.first;
        }
        int blk = c.choose(130);
        long lo, hi;
        if (blk < 128) { lo = -32768 + blk * 512; hi = lo + 512; }
        else if (blk == 128) { lo = INT32_MAX - 5000L; hi = INT32_MAX; }
        else { lo = INT32_MIN; hi = lo + 5000; }
        int known = 0;
        const std::string unknown = nebula::errorCode((nebula::ErrorCode)12345678);
        for (long v = lo; v < hi; ++v) {
            std::string n = nebula::errorCode((nebula::ErrorCode)v);
            std::ostringstream os; os << (nebula::ErrorCode)v;
            MC_CHECK(c, os.str() == n, "print:" + std::to_string(v), "code " << v << " prints as '" << os.str() << "' but is named '" << n << "'");
            auto it = byValue.find(v);
            if (it == byValue.end()) MC_CHECK(c, n == unknown, "extra:" + n, "code " << v << " is named '" << n << "' but the interface definition has no such value");
            else { MC_CHECK(c, n == it->second, "name:" + it->second, "code " << v << " is named '" << n << "', the interface definition calls it '" << it->second << "'"); ++known; }
            c.step();
        }
        c.state(std::to_string(blk)); c.outcome(std::to_string(known));
    }, false, "every value in [-32768, 32767] and 5000 at both ends of the 32-bit range"});
    sc.push_back({"http", [](Ctx& c) {
        using nebula::HttpStatusCode; using nebula::WebServiceUtils;
        struct H { HttpStatusCode code; int num; const char* text; };
        static const std::vector<H> t = {{HttpStatusCode::OK, 200, "OK"}, {HttpStatusCode::BAD_REQUEST, 400, "Bad Request"}, {HttpStatusCode::FORBIDDEN, 403, "Forbidden"},
            {HttpStatusCode::NOT_FOUND, 404, "Not Found"}, {HttpStatusCode::METHOD_NOT_ALLOWED, 405, "Method Not Allowed"}};
        std::string h;
        for (int i = 0; i < 4; ++i) {
            int k = c.choose(t.size() + 2);
            if (k >= (int)t.size()) { std::string s = WebServiceUtils::toString((HttpStatusCode)(k == (int)t.size() ? 599 : 0)); s += "x"; }   // a number outside the table must not disturb it
            else {
                std::string s = WebServiceUtils::toString(t[k].code); int n = WebServiceUtils::to(t[k].code);
                MC_CHECK(c, n == t[k].num, "http-number", "status " << t[k].text << " is " << n);
                MC_CHECK(c, s == t[k].text, "http-phrase", "status " << t[k].num << " is '" << s << "'");
                s[0] = '?';      // the caller's copy is its own
            }
            h += (char)('0' + k);
            c.step(2);
        }
        using nebula::HttpCode;
        MC_CHECK(c, (int)HttpCode::SUCCEEDED == 0 && (int)HttpCode::E_UNSUPPORTED_METHOD == -1 && (int)HttpCode::E_UNPROCESSABLE == -2 && (int)HttpCode::E_ILLEGAL_ARGUMENT == -3, "http-code", "the handler result codes changed");
        c.state(h); c.outcome(h.substr(3));
    }, false, "all sequences of 4 lookups over 5 codes and 2 numbers outside the table"});
    return mc::run(argc, argv, "C13", sc, {"the interface definition under src/common/interface is the published one"});
}
