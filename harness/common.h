// Shared scaffolding of the harness: scenario input, trace output, one child
// process per scenario (or per batch) so that a crash or hang of the code
// under test is itself an observation and never takes the harness down.
#pragma once
#include <ctime>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <iostream>
#include <map>
#include <sstream>
#include <string>
#include <vector>
#include <unistd.h>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>

struct Scenario {
    std::string id;
    std::vector<std::pair<std::string, std::string>> lines; // key, rest
    std::string get(const std::string& key, const std::string& def = "") const {
        for (auto& [k, v] : lines) if (k == key) return v;
        return def;
    }
    std::vector<std::string> all(const std::string& key) const {
        std::vector<std::string> r;
        for (auto& [k, v] : lines) if (k == key) r.push_back(v);
        return r;
    }
};

inline std::string Escape(const std::string& s) {
    std::string r;
    for (unsigned char c : s) {
        if (c == '\\') r += "\\\\";
        else if (c == '\n') r += "\\n";
        else if (c < 32 || c > 126) { char b[8]; snprintf(b, sizeof b, "\\x%02x", c); r += b; }
        else r += static_cast<char>(c);
    }
    return r;
}
inline std::string Unescape(const std::string& s) {
    std::string r;
    for (size_t i = 0; i < s.size(); ++i) {
        if (s[i] != '\\' || i + 1 >= s.size()) { r += s[i]; continue; }
        ++i;
        if (s[i] == 'n') r += '\n';
        else if (s[i] == 'x' && i + 2 < s.size()) {
            r += static_cast<char>(std::stoi(s.substr(i + 1, 2), nullptr, 16)); i += 2;
        } else r += s[i];
    }
    return r;
}
inline std::string Hex(const std::string& s) {
    static const char* d = "0123456789abcdef";
    std::string r;
    for (unsigned char c : s) { r += d[c >> 4]; r += d[c & 15]; }
    return r;
}
inline std::string UnHex(const std::string& s) {
    std::string r;
    for (size_t i = 0; i + 1 < s.size(); i += 2) r += static_cast<char>(std::stoi(s.substr(i, 2), nullptr, 16));
    return r;
}
// Trace output goes straight to fd 3 (not stdout: the code under test prints there).
inline void Emit(const std::string& s) {
    std::string l = s + "\n";
    size_t off = 0;
    while (off < l.size()) {
        ssize_t n = write(3, l.data() + off, l.size() - off);
        if (n <= 0) _exit(97);
        off += static_cast<size_t>(n);
    }
}
inline std::vector<std::string> Split(const std::string& s) {
    std::istringstream is(s);
    std::vector<std::string> r;
    std::string t;
    while (is >> t) r.push_back(t);
    return r;
}
inline uint64_t Bits(double d) { uint64_t u; memcpy(&u, &d, 8); return u; }
inline double FromBits(uint64_t u) { double d; memcpy(&d, &u, 8); return d; }

using Handler = std::function<void(const Scenario&)>;

inline std::vector<Scenario> ReadScenarios(std::istream& in) {
    std::vector<Scenario> r;
    std::string line;
    Scenario cur;
    while (std::getline(in, line)) {
        if (line.rfind("@ ", 0) == 0) { cur = Scenario{}; cur.id = line.substr(2); }
        else if (line == ".") r.push_back(cur);
        else {
            auto sp = line.find(' ');
            if (sp == std::string::npos) cur.lines.emplace_back(line, "");
            else cur.lines.emplace_back(line.substr(0, sp), line.substr(sp + 1));
        }
    }
    return r;
}

inline int RunAll(const std::vector<Scenario>& scs, const Handler& h, size_t batch, unsigned limit, time_t deadline) {
    auto* done = static_cast<volatile uint64_t*>(mmap(nullptr, 4096, PROT_READ | PROT_WRITE,
                                                      MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    size_t i = 0;
    time_t began = time(nullptr);
    while (i < scs.size()) {
        if (time(nullptr) - began > deadline) { Emit("# skipped"); break; }
        size_t end = std::min(scs.size(), i + batch);
        *done = i;
        pid_t pid = fork();
        if (pid < 0) return 98;
        if (pid == 0) {
            for (size_t k = i; k < end; ++k) {
                alarm(limit);
                Emit("@ " + scs[k].id);
                h(scs[k]);
                Emit(". ok");
                *done = k + 1;
            }
            _exit(0);
        }
        int st = 0;
        while (waitpid(pid, &st, 0) < 0) {}
        if (WIFEXITED(st) && WEXITSTATUS(st) == 0) { i = end; continue; }
        if (WIFEXITED(st) && WEXITSTATUS(st) == 97) return 97;
        std::string why;
        if (WIFSIGNALED(st) && WTERMSIG(st) == SIGALRM) why = "hang";
        else if (WIFSIGNALED(st)) why = std::string("crash signal ") + std::to_string(WTERMSIG(st));
        else why = "crash exit " + std::to_string(WEXITSTATUS(st));
        Emit("");            // in case a line was cut
        Emit(". " + why);
        i = *done + 1;
    }
    return 0;
}
