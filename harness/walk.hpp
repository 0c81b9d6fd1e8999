// Takes every transition of a specification's graph through real code.
// Input: lines  "T <<state, operation, events, state>>"  printed by TLC.
// The driver supplies a world: reset(), step(edge, variant), teardown(variant).
#pragma once
#include <algorithm>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <fstream>
#include <string>
#include <unordered_map>
#include <unordered_set>
#include <vector>
#include <csignal>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>

namespace walk {
struct Val {
    int n = 0; std::string s; std::vector<Val> v; char k = 'i';
    const Val& operator[](size_t i) const { return v.at(i); }
    size_t size() const { return v.size(); }
    operator int() const { return n; }
    bool operator==(const char* o) const { return k == 's' && s == o; }
    std::string text() const {
        if (k == 'i') return std::to_string(n);
        if (k == 's') return s;
        std::string r = "<";
        for (auto& x : v) { if (r.size() > 1) r += ","; r += x.text(); }
        return r + ">";
    }
};
struct Parser {
    const char* p;
    void ws() { while (*p == ' ' || *p == ',' || *p == '\\') ++p; }
    Val val() {
        ws();
        Val r;
        if (*p == '<' || *p == '{') {
            char end = *p == '<' ? '>' : '}';
            p += *p == '<' ? 2 : 1;
            r.k = 'v';
            for (;;) { ws(); if (*p == end || !*p) break; r.v.push_back(val()); }
            p += end == '>' ? 2 : 1;
        }
        else if (*p == '"') { ++p; r.k = 's'; while (*p && *p != '"' && *p != '\\') r.s += *p++; if (*p == '\\') ++p; ++p; }
        else if (*p == 'T' || *p == 'F') { r.n = *p == 'T'; while (isalpha(*p)) ++p; }
        else { char* e; r.n = int(strtol(p, &e, 10)); if (e == p) { fprintf(stderr, "cannot read: %.60s\n", p); exit(2); } p = e; }
        return r;
    }
};
struct Edge { int pre, post; Val op, ev; };
inline std::vector<Edge> edges;
inline std::vector<std::vector<int>> out;
inline std::vector<Val> states;
inline int init = -1;

inline void load(const char* fn) {
    std::ifstream in(fn);
    if (!in) { perror(fn); exit(2); }
    std::unordered_map<std::string, int> ids;
    std::unordered_set<std::string> seen;
    std::string l;
    auto slice = [&](Parser& p) {       // the state that starts here
        p.ws();
        const char* b = p.p;
        int depth = 0;
        do {
            if (*p.p == '<' || *p.p == '{') { ++depth; if (*p.p == '<') ++p.p; }
            else if (*p.p == '>' || *p.p == '}') { --depth; if (*p.p == '>') ++p.p; }
            ++p.p;
        } while (depth > 0 && *p.p);
        std::string t(b, size_t(p.p - b));
        auto it = ids.find(t);
        if (it != ids.end()) return it->second;
        Parser q{t.c_str()};
        int i = int(states.size());
        states.push_back(q.val()); out.emplace_back();
        ids.emplace(std::move(t), i);
        return i;
    };
    while (std::getline(in, l)) {
        if (l.rfind("\"I ", 0) == 0) { Parser p{l.c_str() + 3}; init = slice(p); }
        if (l.rfind("\"T ", 0) != 0) continue;
        Parser p{l.c_str() + 5};
        int pre = slice(p);
        const char* o = p.p;
        Val op = p.val();
        size_t on = size_t(p.p - o);
        Val ev = p.val();
        int post = slice(p);
        if (!seen.insert(std::to_string(pre) + " " + std::string(o, on) + " " + std::to_string(post)).second) continue;
        Edge e{pre, post, std::move(op), std::move(ev)};
        out[e.pre].push_back(int(edges.size()));
        edges.push_back(std::move(e));
    }
    if (init < 0) { fprintf(stderr, "no initial state in %s\n", fn); exit(2); }
}

inline std::string message;          // first difference found in the current step
inline void fail(const std::string& m) { if (message.empty()) message = m; }

struct Shared {
    int len; int step; int edge[256]; unsigned var[256];
    char msg[512];
    int failed;            // 1 difference, 2 ended without a problem, 0 still running
    long walks, calls;
};
inline std::string esc(const std::string& s) {
    std::string r;
    for (char c : s) { if (c == '"' || c == '\\') r += '\\'; if (c == '\n') { r += ' '; continue; } r += c; }
    return r;
}
inline unsigned mix(unsigned a, unsigned b) { a ^= b * 0x9E3779B1u; a ^= a >> 15; a *= 0x85EBCA6Bu; a ^= a >> 13; a *= 0xC2B2AE35u; return a ^ (a >> 16); }

// shortest way from s to a state with a transition still to be taken
inline std::vector<int> route(int s, const unsigned char* cnt, unsigned char want, unsigned r, size_t reach) {
    static std::vector<int> via, q;
    if (via.empty()) via.assign(states.size(), -2);
    struct Clean { ~Clean() { for (int x : q) via[x] = -2; q.clear(); } } clean;
    q.push_back(s);
    via[s] = -1;
    for (size_t at = 0; at < q.size() && at < reach; ++at) {
        int x = q[at];
        size_t n = out[x].size();
        for (size_t i = 0; i < n; ++i) {
            int e = out[x][(i + r) % n];
            if (cnt[e] < want) {
                std::vector<int> w{e};
                while (via[x] != -1) { w.push_back(via[x]); x = edges[via[x]].pre; }
                std::reverse(w.begin(), w.end());
                return w;
            }
        }
        for (size_t i = 0; i < n; ++i) {
            int e = out[x][(i + r) % n], y = edges[e].post;
            if (via[y] == -2 && cnt[e] != 255) { via[y] = e; q.push_back(y); }
        }
    }
    return {};
}

template <typename World>
void worker(Shared* sh, unsigned char* cnt, unsigned char want, unsigned seed, int cap) {
    World W;
    unsigned r = seed;
    for (;;) {
        W.reset(); message.clear();
        sh->len = 0; sh->step = -1; sh->failed = 0;
        int s = init;
        bool any = false;
        while (sh->len < cap) {
            auto w = route(s, cnt, want, r = mix(r, sh->len + 1), sh->len ? 200 : ~size_t(0));
            if (w.empty() || sh->len + int(w.size()) > 255) break;
            any = true;
            for (int e : w) {
                int i = sh->len++;
                sh->edge[i] = e; sh->var[i] = r = mix(r, e); sh->step = i;
                if (cnt[e] < want) ++cnt[e];
                W.step(edges[e], sh->var[i]);
                ++sh->calls;
                if (!message.empty()) { snprintf(sh->msg, sizeof sh->msg, "%s", message.c_str()); sh->failed = 1; _exit(3); }
                s = edges[e].post;
            }
        }
        if (!any) { sh->failed = 2; _exit(0); }
        sh->step = sh->len;
        W.teardown(mix(r, 77));
        if (!message.empty()) { snprintf(sh->msg, sizeof sh->msg, "%s", message.c_str()); sh->failed = 1; _exit(3); }
        ++sh->walks;
    }
}

// Can this walk fail on its own again, with its calls in the same forms?
template <typename World>
int again(const Shared& s, std::string& msg) {
    auto sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    *sh = s; sh->failed = 0; sh->msg[0] = 0;
    pid_t c = fork();
    if (!c) {
        (void)!freopen("/dev/null", "w", stderr);
        World W; W.reset(); message.clear();
        for (int i = 0; i < sh->len && message.empty(); ++i) { sh->step = i; W.step(edges[sh->edge[i]], sh->var[i]); }
        if (message.empty() && s.step == s.len) { sh->step = sh->len; W.teardown(1); }
        snprintf(sh->msg, sizeof sh->msg, "%s", message.c_str());
        _exit(message.empty() ? 0 : 3);
    }
    int st = 0;
    waitpid(c, &st, 0);
    int res = !(WIFEXITED(st) && WEXITSTATUS(st) == 0);
    msg = WIFEXITED(st) && WEXITSTATUS(st) == 3 ? sh->msg : "the program is stopped (memory error or abort)";
    munmap(sh, sizeof(Shared));
    return res;
}

template <typename World>
int main(int argc, char** argv) {
    int workers = 4, passes = 4, maxfail = 3, cap = 24; unsigned seed = 1; double limit = 300;
    const char* file = nullptr; const char* replay = nullptr;
    for (int i = 1; i < argc; ++i) {
        std::string a = argv[i];
        auto next = [&] { return argv[++i]; };
        if (a == "--graph") file = next();
        else if (a == "--workers") workers = atoi(next());
        else if (a == "--passes") passes = atoi(next());
        else if (a == "--seed") seed = unsigned(atoi(next()));
        else if (a == "--maxfail") maxfail = atoi(next());
        else if (a == "--limit") limit = atof(next());
        else if (a == "--replay") replay = next();
        else { fprintf(stderr, "unknown %s\n", argv[i]); return 2; }
    }
    load(file);
    if (replay) {       // "edge:variant,edge:variant,...[,end]"
        static Shared s; s = {};
        std::string t = replay;
        bool end = t.size() > 4 && t.substr(t.size() - 4) == ",end";
        for (const char* p = t.c_str(); *p && *p != 'e';) {
            char* e; s.edge[s.len] = int(strtol(p, &e, 10)); s.var[s.len] = unsigned(strtoul(e + 1, &e, 10)); ++s.len;
            p = *e ? e + 1 : e;
        }
        s.step = end ? s.len : s.len - 1;
        for (int i = 0; i < s.len; ++i) printf("  %s\n", edges[s.edge[i]].op.text().c_str());
        if (end) printf("  drop everything\n");
        std::string msg;
        if (again<World>(s, msg)) { printf("  -> %s\n", msg.c_str()); return 1; }
        printf("  -> as specified\n");
        return 0;
    }
    auto cnt = static_cast<unsigned char*>(mmap(nullptr, edges.size() + 1, PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    auto sh = static_cast<Shared*>(mmap(nullptr, sizeof(Shared) * size_t(workers), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0));
    std::vector<pid_t> pid(static_cast<size_t>(workers), 0);
    unsigned born = 0;
    auto start = [&](int w) {
        pid[w] = fork();
        if (!pid[w]) {
            (void)!freopen("/dev/null", "w", stderr);
            worker<World>(&sh[w], cnt, static_cast<unsigned char>(passes), mix(seed, ++born * 131 + unsigned(w)), cap);
            _exit(0);
        }
        ++born;
    };
    auto now = [] { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; };
    double t0 = now();
    for (int w = 0; w < workers; ++w) start(w);
    int failures = 0, unconfirmed = 0, running = workers;
    bool stop = false;
    while (running) {
        int st;
        pid_t c = waitpid(-1, &st, WNOHANG);
        if (c <= 0) {
            if (!stop && now() - t0 > limit) { stop = true; for (auto p : pid) if (p > 0) kill(p, SIGKILL); }
            usleep(2000);
            continue;
        }
        int w = -1;
        for (int i = 0; i < workers; ++i) if (pid[i] == c) w = i;
        if (w < 0) continue;
        pid[w] = 0; --running;
        if (stop || (WIFEXITED(st) && WEXITSTATUS(st) == 0 && sh[w].failed == 2)) continue;
        Shared& s = sh[w];
        std::string msg;
        if (s.step < s.len && s.step >= 0) cnt[s.edge[s.step]] = 255;      // do not go there again
        if (again<World>(s, msg)) {
            std::string codes, text;
            for (int i = 0; i < s.len; ++i) {
                codes += (i ? "," : "") + std::to_string(s.edge[i]) + ":" + std::to_string(s.var[i]);
                text += (i ? " " : "") + edges[s.edge[i]].op.text();
            }
            if (s.step == s.len) codes += ",end";
            printf("FAIL {\"msg\": \"%s\", \"call\": \"%s\", \"walk\": \"%s\", \"history\": \"%s\"}\n", esc(msg).c_str(),
                   s.step == s.len ? "dropping everything" : esc(edges[s.edge[s.step]].op.text()).c_str(), codes.c_str(), esc(text).c_str());
            if (++failures >= maxfail) { stop = true; for (auto p : pid) if (p > 0) kill(p, SIGKILL); continue; }
        }
        else ++unconfirmed;
        if (unconfirmed > 20) { stop = true; for (auto p : pid) if (p > 0) kill(p, SIGKILL); continue; }
        start(w); ++running;
    }
    long covered = 0, walks = 0, calls = 0;
    for (size_t i = 0; i < edges.size(); ++i) covered += cnt[i] > 0;
    for (int w = 0; w < workers; ++w) { walks += sh[w].walks; calls += sh[w].calls; }
    printf("DONE {\"states\": %zu, \"edges\": %zu, \"covered\": %ld, \"walks\": %ld, \"steps\": %ld, \"failures\": %d, \"unconfirmed\": %d, \"seconds\": %.1f}\n",
           states.size(), edges.size(), covered, walks, calls, failures, unconfirmed, now() - t0);
    return 0;
}
}
