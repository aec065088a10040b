// C46: digests and base-64 of every short byte string and of every length.
#include "common/base/Base.h"
#include "mc.h"
#include "common/encryption/Base64.h"
#include "common/encryption/MD5Utils.h"
#include <map>
using mc::Ctx; using std::string;
// decoding by the definition of RFC 4648
static bool decode(const string& e, string& out) {
    out.clear(); if (e.size() % 4) return false; static const string A = "ABCDEFGHIJKLMNOPQRSTUVWXYZabcdefghijklmnopqrstuvwxyz0123456789+/"; size_t pad = !e.empty() && e.back() == '=' ? (e[e.size() - 2] == '=' ? 2 : 1) : 0;
    uint32_t v = 0; int bits = 0; for (size_t i = 0; i < e.size() - pad; ++i) { auto p = A.find(e[i]); if (p == string::npos) return false; v = v << 6 | p; bits += 6; if (bits >= 8) { bits -= 8; out += (char)(v >> bits & 255); } v &= (1u << bits) - 1; }
    return v == 0;
}
static void one(Ctx& c, const string& s) {
    c.step(); string b = nebula::encryption::Base64::encode(s), back; auto at = [&] { return " of " + std::to_string(s.size()) + " bytes" + (s.size() < 4 && !s.empty() ? " beginning with " + std::to_string((unsigned char)s[0]) : ""); };
    MC_CHECK(c, decode(b, back) && back == s, "base64", "the base-64 text" << at() << " is \"" << b << "\", which stands for something else");
    string d = nebula::encryption::MD5Utils::md5Encode(s); folly::ByteRange r(reinterpret_cast<const unsigned char*>(s.data()), s.size());
    MC_CHECK(c, d == proxygen::md5Encode(r), "md5", "the digest" << at() << " is " << d << ", not that of all its bytes");
    MC_CHECK(c, d.size() == 32 && d.find_first_not_of("0123456789abcdef") == string::npos, "md5-form", "the digest" << at() << " is \"" << d << "\"");
}
int main(int argc, char** argv) {
    std::vector<mc::Scenario> sc;
    sc.push_back({"short", [](Ctx& c) { int n = c.choose(c.thorough() ? 4 : 3); string s; for (int i = 0; i < n - 1; ++i) s += (char)c.choose(256); if (n == 0) one(c, ""); else for (int x = 0; x < 256; ++x) one(c, s + (char)x); c.outcome(std::to_string(n)); }, false, "all byte strings of up to 2 (3) bytes"});
    sc.push_back({"long", [](Ctx& c) { int n = c.choose(600), k = c.choose(4); string s; for (int i = 0; i < n; ++i) s += (char)(k == 0 ? 0 : k == 1 ? i * 37 + n : k == 2 ? 255 - i % 3 : i == n / 2 ? 0 : 'a' + i % 26); one(c, s); c.outcome(std::to_string(k)); }, false, "4 contents of every length up to 599, zero bytes among them"});
    sc.push_back({"vectors", [](Ctx& c) {
        static const char* V[][3] = {{"", "d41d8cd98f00b204e9800998ecf8427e", ""}, {"a", "0cc175b9c0f1b6a831c399e269772661", "YQ=="}, {"abc", "900150983cd24fb0d6963f7d28e17f72", "YWJj"}, {"message digest", "f96b697d7cb7938d525a2f31aaf161d0", "bWVzc2FnZSBkaWdlc3Q="}, {"abcdefghijklmnopqrstuvwxyz", "c3fcd3d76192e4007dfb496cca67e13b", "YWJjZGVmZ2hpamtsbW5vcHFyc3R1dnd4eXo="}, {"12345678901234567890123456789012345678901234567890123456789012345678901234567890", "57edf4a22be3c955ac49da2e2107b67a", "MTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkwMTIzNDU2Nzg5MDEyMzQ1Njc4OTAxMjM0NTY3ODkwMTIzNDU2Nzg5MDEyMzQ1Njc4OTA="}};
        for (auto& v : V) { c.step(); MC_CHECK(c, nebula::encryption::MD5Utils::md5Encode(v[0]) == v[1], "vector", "the digest of \"" << v[0] << "\" is not the published one"); MC_CHECK(c, nebula::encryption::Base64::encode(v[0]) == v[2], "vector", "the base-64 text of \"" << v[0] << "\" is not the published one"); }
        c.outcome("vectors");
    }, false, "the published test vectors", 20, false});
    return mc::run(argc, argv, "C46", sc, {"proxygen's digest and base-64 functions are a stand-in written from the RFCs"});
}
