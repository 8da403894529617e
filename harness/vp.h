// In-process harness: one case per line on stdin (integers, the choices of the case), one JSON object per line on stdout.
// Every case runs in a forked child: state never leaks from a case to the next, and a crash or a hang is a failure of that case only.
#pragma once
#include <cmath>
#include <csignal>
#include <cstdint>
#include <cstdio>
#include <iostream>
#include <sstream>
#include <string>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <fcntl.h>

namespace vp {

struct Case {
    std::vector<uint32_t> c;
    size_t i = 0;
    std::vector<std::string> fails, tags;
    std::ostringstream text;
    bool nontrivial = false;
    // a choice in [0, n): past the end of the choices, always the first one
    uint32_t draw(uint32_t n) { return i < c.size() ? c[i++] % n : 0; }
    bool more() const { return i < c.size(); }
    bool flag(uint32_t n = 2) { return draw(n) != 0; }
    // 0 first, then small integers, then eighths
    double real(int range = 9) {
        const uint32_t k = draw(3);
        const int m = static_cast<int>(draw(static_cast<uint32_t>(2 * range + 1)));
        const int v = (m % 2) ? (m + 1) / 2 : -m / 2;
        if (k == 0) return v;
        return v + static_cast<int>(draw(8)) / 8.0;
    }
    void tag(const std::string& s) { tags.push_back(s); }
    void fail(const std::string& kind, const std::string& what) { if (fails.size() < 12) fails.push_back(kind + ": " + what); }
    template<typename T> void same(const std::string& kind, const T& got, const T& want, const std::string& what = "") {
        if (!(got == want)) { std::ostringstream o; o << what << " got " << got << ", expected " << want; fail(kind, o.str()); }
    }
    void near(const std::string& kind, double got, double want, const std::string& what = "", double tol = 1e-9) {
        if (!(std::fabs(got - want) <= tol * std::max(1.0, std::max(std::fabs(got), std::fabs(want))))) {
            std::ostringstream o; o.precision(12); o << what << " got " << got << ", expected " << want; fail(kind, o.str());
        }
    }
    void check(const std::string& kind, bool ok, const std::string& what = "") { if (!ok) fail(kind, what); }
};

inline std::string quote(const std::string& s) {
    std::string r = "\"";
    char b[8];
    for (unsigned char ch : s) {
        if (ch == '"' || ch == '\\') { r += '\\'; r += static_cast<char>(ch); }
        else if (ch < 32 || ch > 126) { snprintf(b, sizeof b, "\\u%04x", ch); r += b; }
        else r += static_cast<char>(ch);
    }
    return r + "\"";
}

inline std::string list(const std::vector<std::string>& v) {
    std::string r = "[";
    for (size_t i = 0; i < v.size(); ++i) r += (i ? "," : "") + quote(v[i]);
    return r + "]";
}

inline std::string answer(const Case& c) {
    return "{\"fails\":" + list(c.fails) + ",\"tags\":" + list(c.tags) + ",\"nontrivial\":" + (c.nontrivial ? "true" : "false") + ",\"text\":" + quote(c.text.str()) + "}";
}
inline void put(int fd, const std::string& r) {
    size_t k = 0;
    while (k < r.size()) { const ssize_t w = write(fd, r.data() + k, r.size() - k); if (w <= 0) break; k += static_cast<size_t>(w); }
}
struct Running { Case* c; int fd; };
inline Running& running() { static Running r = {nullptr, -1}; return r; }
// a crash or a hang still tells what the case did; a second signal ends the child for good
inline void died(int sig) {
    signal(sig, SIG_DFL);
    signal(SIGALRM, SIG_DFL);
    alarm(2);
    Case* c = running().c;
    if (c) {
        c->fails.clear();
        c->fails.push_back(std::string(sig == SIGALRM ? "hang" : "crash") + ": signal " + std::to_string(sig));
        c->nontrivial = true;
        put(running().fd, answer(*c));
    }
    _exit(0);
}

inline int serve(void (*body)(Case&)) {
    std::string line;
    const int out = dup(1);
    const int nul = open("/dev/null", O_WRONLY);
    dup2(nul, 1);
    dup2(nul, 2);
    while (std::getline(std::cin, line)) {
        int fd[2];
        if (pipe(fd)) return 1;
        const pid_t pid = fork();
        if (pid == 0) {
            close(fd[0]);
            alarm(20);
            Case c;
            std::istringstream is(line);
            uint32_t x;
            while (is >> x) c.c.push_back(x);
            running() = {&c, fd[1]};
            for (int sig : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) signal(sig, died);
            try { body(c); }
            catch (const std::exception& e) { c.fail("exception", e.what()); }
            catch (...) { c.fail("exception", "not a std::exception"); }
            put(fd[1], answer(c));
            close(fd[1]);
            _exit(0);
        }
        close(fd[1]);
        std::string r;
        char buf[65536];
        ssize_t n;
        while ((n = read(fd[0], buf, sizeof buf)) > 0) r.append(buf, static_cast<size_t>(n));
        close(fd[0]);
        int st = 0;
        waitpid(pid, &st, 0);
        if (WIFSIGNALED(st)) {
            r = "{\"fails\":[" + quote(std::string(WTERMSIG(st) == SIGALRM ? "hang" : "crash") + ": signal " + std::to_string(WTERMSIG(st))) + "],\"tags\":[],\"nontrivial\":true,\"text\":\"\"}";
        } else if (WEXITSTATUS(st) != 0 || r.empty()) {
            r = "{\"fails\":[" + quote("crash: exit status " + std::to_string(WEXITSTATUS(st))) + "],\"tags\":[],\"nontrivial\":true,\"text\":\"\"}";
        }
        r += "\n";
        if (write(out, r.data(), r.size()) < 0) return 1;
    }
    return 0;
}
}
