// How sh(1) takes a simple command apart; anything but plain words and quotes is refused.
#pragma once
#include <cstring>
#include <stdexcept>
#include <string>
#include <vector>
inline std::vector<std::string> shellWords(const std::string& s) {
    std::vector<std::string> r; std::string w; bool in = false;
    for (size_t i = 0; i < s.size(); ++i) {
        char c = s[i];
        if (c == ' ' || c == '\t') { if (in) r.push_back(w); w.clear(); in = false; continue; }
        in = true;
        if (c == '\'') { size_t e = s.find('\'', i + 1); if (e == std::string::npos) throw std::runtime_error("a single quote is never closed"); w += s.substr(i + 1, e - i - 1); i = e; }
        else if (c == '"') {
            for (++i;; ++i) {
                if (i >= s.size()) throw std::runtime_error("a double quote is never closed");
                if (s[i] == '"') break;
                if (s[i] == '\\' && i + 1 < s.size() && strchr("$`\"\\", s[i + 1])) { w += s[++i]; continue; }
                if (s[i] == '$' || s[i] == '`') throw std::runtime_error("the shell would expand what follows a $ or `");
                w += s[i];
            }
        } else if (c == '\\') { if (i + 1 >= s.size()) throw std::runtime_error("a backslash at the end"); w += s[++i]; }
        else if (strchr("|&;<>()$`*?[]#~!\n", c) || c == 0) throw std::runtime_error(std::string("the shell would act on a bare ") + (c == '\n' ? "newline" : std::string(1, c)));
        else w += c;
    }
    if (in) r.push_back(w);
    return r;
}
