// Bounded exhaustive exploration framework (see DESIGN.md, "Framework").
//
// A harness registers *units*.  A unit enumerates a finite space of cases in a fixed order; every
// case is announced with mc::at(label, data, size) before the code under test runs, so that a crash,
// a sanitizer report or a hang is attributed to exactly that case and can be replayed alone
// (--replay UNIT INDEX).  Units are distributed over forked workers.
#pragma once
#include <algorithm>
#include <atomic>
#include <cerrno>
#include <csignal>
#include <cstdarg>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <functional>
#include <string>
#include <vector>
#include <fcntl.h>
#include <sys/mman.h>
#include <sys/resource.h>
#include <sys/wait.h>
#include <time.h>
#include <unistd.h>

namespace mc {

    enum { data_max = 1024, viol_max = 400, samp_max = 48, workers_max = 16 };
    static const uint64_t state_bits = uint64_t(1) << 27;
    static const uint64_t outc_bits  = uint64_t(1) << 20;

    struct Case  { char label[96]; uint32_t n; uint32_t full; uint8_t data[data_max]; };
    struct Slot  {
        std::atomic<uint64_t> beat; std::atomic<int64_t> unit; std::atomic<uint64_t> idx; std::atomic<int> done;
        Case c; uint64_t transitions, traces, evals;
    };
    struct Viol  { int64_t unit; uint64_t idx; Case c; char msg[1500]; };
    struct Samp  { char txt[400]; };
    struct Shm   {
        std::atomic<int64_t> next; std::atomic<int> nviol; std::atomic<int> nsamp; std::atomic<int> abort_all;
        std::atomic<uint64_t> fails;
        Viol viol[viol_max]; Samp samp[samp_max]; Slot slot[workers_max];
        uint8_t states[state_bits / 8]; uint8_t outc[outc_bits / 8];
    };
    struct Unit  { std::string name; std::function<void()> fn; };

    inline std::vector<Unit>& units() { static std::vector<Unit> u; return u; }
    inline void add(const std::string& name, std::function<void()> fn) { units().push_back(Unit{name, fn}); }

    struct G {
        Shm* shm; Slot* slot; int64_t unit; uint64_t idx; uint64_t skip; int64_t only; int thorough; int fails_here; uint64_t seed; bool quiet;
    };
    inline G& g() { static G x = {nullptr, nullptr, -1, 0, 0, -1, 0, 0, 1, false}; return x; }
    inline bool thorough() { return g().thorough != 0; }

    // announce a case; false: the case is not to be run (replay of another one, resume after a crash)
    inline bool at(const char* label, const void* data = nullptr, size_t n = 0) {
        G& x = g(); Slot* s = x.slot;
        uint64_t i = x.idx++;
        if (x.only >= 0 && i != uint64_t(x.only)) return false;
        if (i < x.skip) return false;
        Case& c = s->c;
        size_t m = n < size_t(data_max) ? n : size_t(data_max);
        strncpy(c.label, label, sizeof c.label - 1);
        if (m) memcpy(c.data, data, m);
        c.n = uint32_t(m); c.full = uint32_t(n);
        s->idx.store(i, std::memory_order_relaxed);
        s->beat.fetch_add(1, std::memory_order_relaxed);
        ++s->evals;
        return true;
    }
    inline bool at(const char* label, const std::string& d) { return at(label, d.data(), d.size()); }
    // a description of the running case that is only known later
    inline void describe(const std::string& d) {
        Case& c = g().slot->c; size_t m = std::min<size_t>(d.size(), data_max);
        memcpy(c.data, d.data(), m); c.n = uint32_t(m); c.full = uint32_t(d.size());
    }
    inline void beat() { g().slot->beat.fetch_add(1, std::memory_order_relaxed); }

    inline void push_viol(Shm* h, int64_t unit, uint64_t idx, const Case& c, const char* msg) {
        int k = h->nviol.fetch_add(1);
        if (k >= viol_max) return;
        Viol& v = h->viol[k]; v.unit = unit; v.idx = idx; v.c = c;
        strncpy(v.msg, msg, sizeof v.msg - 1);
    }
    __attribute__((format(printf, 1, 2)))
    inline void fail(const char* fmt, ...) {
        char b[1500]; va_list a; va_start(a, fmt); vsnprintf(b, sizeof b, fmt, a); va_end(a);
        G& x = g();
        x.shm->fails.fetch_add(1);
        push_viol(x.shm, x.unit, x.slot->idx.load(), x.slot->c, b);
        if (++x.fails_here >= 60) { x.shm->abort_all.store(1); x.slot->done.store(1); _exit(0); }
    }
    inline void sample(const std::string& s) {
        Shm* h = g().shm;
        int k = h->nsamp.load(); if (k >= samp_max) return;
        k = h->nsamp.fetch_add(1); if (k >= samp_max) return;
        strncpy(h->samp[k].txt, s.c_str(), sizeof h->samp[k].txt - 1);
    }

    inline uint64_t hash(const void* p, size_t n, uint64_t h = 1469598103934665603ull) {
        const uint8_t* b = (const uint8_t*)p;
        for (size_t i = 0; i < n; ++i) h = (h ^ b[i]) * 1099511628211ull;
        h ^= h >> 32; h *= 0x9E3779B97F4A7C15ull; h ^= h >> 29;
        return h;
    }
    inline uint64_t hash(const std::string& s, uint64_t h = 1469598103934665603ull) { return hash(s.data(), s.size(), h); }
    inline uint64_t mix(uint64_t a, uint64_t b) { uint64_t x[2] = {a, b}; return hash(x, sizeof x); }

    // model accounting
    inline void state(uint64_t h) { h %= state_bits; __atomic_fetch_or(&g().shm->states[h >> 3], uint8_t(1u << (h & 7)), __ATOMIC_RELAXED); }
    inline void transition(uint64_t n = 1) { g().slot->transitions += n; }
    inline void trace(uint64_t n = 1) { g().slot->traces += n; }
    inline void outcome(uint64_t h) { h %= outc_bits; __atomic_fetch_or(&g().shm->outc[h >> 3], uint8_t(1u << (h & 7)), __ATOMIC_RELAXED); }

    inline std::string hex(const void* p, size_t n) {
        static const char d[] = "0123456789abcdef"; std::string s; const uint8_t* b = (const uint8_t*)p;
        for (size_t i = 0; i < n; ++i) { s += d[b[i] >> 4]; s += d[b[i] & 15]; } return s;
    }
    inline std::string hex(const std::string& s) { return hex(s.data(), s.size()); }
    inline std::string esc(const char* b, size_t n) {
        std::string s;
        for (size_t i = 0; i < n; ++i) {
            unsigned char c = (unsigned char)b[i];
            if (c == '"' || c == '\\') { s += '\\'; s += char(c); }
            else if (c < 32 || c > 126) { char t[8]; snprintf(t, sizeof t, "\\u%04x", c); s += t; }
            else s += char(c);
        }
        return s;
    }
    inline std::string esc(const std::string& s) { return esc(s.data(), s.size()); }
    inline std::string fmt(const char* f, ...) { char b[2000]; va_list a; va_start(a, f); vsnprintf(b, sizeof b, f, a); va_end(a); return b; }

    // memory whose last byte is followed by an inaccessible page
    struct Guard {
        char* base; size_t cap;
        explicit Guard(size_t max = 1 << 16) {
            size_t ps = size_t(sysconf(_SC_PAGESIZE)); cap = (max + ps - 1) / ps * ps;
            base = (char*)mmap(nullptr, cap + ps, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
            if (base == MAP_FAILED) { perror("mmap"); _exit(99); }
            mprotect(base + cap, ps, PROT_NONE);
        }
        ~Guard() { munmap(base, cap + size_t(sysconf(_SC_PAGESIZE))); }
        char* tail(size_t n) { return base + cap - n; }
        const char* put(const void* p, size_t n) { char* d = tail(n); if (n) memcpy(d, p, n); return d; }
        const char* put(const std::string& s) { return put(s.data(), s.size()); }
        Guard(const Guard&) = delete; Guard& operator =(const Guard&) = delete;
    };
    inline Guard& guard() { static Guard x(1 << 20); return x; }

    inline double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return double(t.tv_sec) + double(t.tv_nsec) * 1e-9; }

    inline void run_worker(int w, int64_t unit0, uint64_t skip0, const std::string& log) {
        G& x = g(); x.slot = &x.shm->slot[w];
        int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
        for (;;) {
            int64_t u; uint64_t sk = 0;
            if (unit0 >= 0) { u = unit0; sk = skip0; unit0 = -1; } else u = x.shm->next.fetch_add(1);
            if (u >= int64_t(units().size()) || x.shm->abort_all.load()) break;
            x.unit = u; x.idx = 0; x.skip = sk; x.fails_here = 0;
            x.slot->unit.store(u); x.slot->idx.store(0); x.slot->c.n = 0; strcpy(x.slot->c.label, "(unit start)");
            x.slot->beat.fetch_add(1);
            units()[size_t(u)].fn();
        }
        x.slot->done.store(1);
        fflush(nullptr);
        _exit(0);
    }
    inline std::string read_log(const std::string& log) {
        std::string s; FILE* f = fopen(log.c_str(), "r"); if (!f) return s;
        char b[4096]; size_t n; while ((n = fread(b, 1, sizeof b, f)) > 0 && s.size() < 100000) s.append(b, n); fclose(f);
        // keep the lines that say what happened
        std::string o; size_t i = 0; int k = 0;
        while (i < s.size() && k < 8) {
            size_t j = s.find('\n', i); if (j == std::string::npos) j = s.size();
            std::string l = s.substr(i, j - i); i = j + 1;
            if (l.find("ERROR") != std::string::npos || l.find("runtime error") != std::string::npos || l.find("ssert") != std::string::npos
                || l.find("cxon/") != std::string::npos || l.find("terminate") != std::string::npos || l.find("what()") != std::string::npos) { o += l.substr(0, 220) + " | "; ++k; }
        }
        return o;
    }
    // run one case alone; 0 ok, 1 violation/crash, 2 no answer
    inline int replay_child(int64_t unit, uint64_t idx, double limit, int w, const std::string& log) {
        G& x = g(); Slot& s = x.shm->slot[w];
        s.done.store(0); int v0 = x.shm->nviol.load();
        pid_t p = fork();
        if (p == 0) {
            x.only = int64_t(idx); x.slot = &s; x.unit = unit; x.idx = 0; x.skip = 0; x.fails_here = 0;
            int fd = open(log.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600); if (fd >= 0) { dup2(fd, 2); close(fd); }
            s.unit.store(unit); units()[size_t(unit)].fn(); s.done.store(1); fflush(nullptr); _exit(0);
        }
        double t0 = now(); int st;
        for (;;) {
            pid_t r = waitpid(p, &st, WNOHANG);
            if (r == p) break;
            if (now() - t0 > limit) { kill(p, SIGKILL); waitpid(p, &st, 0); return 2; }
            usleep(2000);
        }
        if (!s.done.load()) return 1;
        return x.shm->nviol.load() > v0 ? 1 : 0;
    }

    inline int main(int argc, char** argv) {
        G& x = g(); const char* out = nullptr; std::string logs = "."; std::string ru; int64_t ri = -1; int nw = 8; double hang = 20; std::string only_unit;
        for (int i = 1; i < argc; ++i) {
            std::string a = argv[i];
            if (a == "--thorough") x.thorough = 1;
            else if (a == "--out" && i + 1 < argc) out = argv[++i];
            else if (a == "--logs" && i + 1 < argc) logs = argv[++i];
            else if (a == "--workers" && i + 1 < argc) nw = atoi(argv[++i]);
            else if (a == "--hang" && i + 1 < argc) hang = atof(argv[++i]);
            else if (a == "--seed" && i + 1 < argc) x.seed = strtoull(argv[++i], nullptr, 10);
            else if (a == "--unit" && i + 1 < argc) only_unit = argv[++i];
            else if (a == "--replay" && i + 2 < argc) { ru = argv[++i]; ri = atoll(argv[++i]); }
            else if (a == "--list") { for (auto& u : units()) puts(u.name.c_str()); return 0; }
        }
        if (nw > workers_max - 1) nw = workers_max - 1;
        if (!only_unit.empty()) { std::vector<Unit> k; for (auto& u : units()) if (u.name.find(only_unit) != std::string::npos) k.push_back(u); units() = k; }
        x.shm = (Shm*)mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS, -1, 0);
        if (x.shm == MAP_FAILED) { perror("mmap"); return 99; }
        { struct rlimit rl = {0, 0}; setrlimit(RLIMIT_CORE, &rl); }
        if (!ru.empty()) {
            for (size_t u = 0; u < units().size(); ++u) if (units()[u].name == ru) {
                std::string log = logs + "/replay.log";
                int r = replay_child(int64_t(u), uint64_t(ri), 60, 0, log);
                Slot& s = x.shm->slot[0];
                printf("case: %s %s\n", s.c.label, hex(s.c.data, s.c.n).c_str());
                for (int k = 0; k < x.shm->nviol.load() && k < viol_max; ++k) printf("VIOLATED: %s\n", x.shm->viol[k].msg);
                if (r == 1 && x.shm->nviol.load() == 0) printf("VIOLATED: crashed: %s\n", read_log(log).c_str());
                if (r == 2) printf("VIOLATED: no answer within 60 s\n");
                if (r == 0) printf("ok\n");
                return r == 0 ? 0 : 1;
            }
            printf("no such unit %s\n", ru.c_str()); return 99;
        }
        std::vector<pid_t> pid(size_t(nw), -1); std::vector<uint64_t> beat(size_t(nw), 0); std::vector<double> when(size_t(nw), now());
        std::vector<int> restarts(units().size(), 0);
        auto spawn = [&](int w, int64_t u, uint64_t skip) {
            x.shm->slot[w].done.store(0);
            pid_t p = fork();
            if (p == 0) run_worker(w, u, skip, logs + "/w" + std::to_string(w) + ".log");
            pid[size_t(w)] = p; when[size_t(w)] = now();
        };
        double t0 = now();
        for (int w = 0; w < nw; ++w) spawn(w, -1, 0);
        int live = nw; bool capped = false;
        while (live) {
            usleep(3000);
            for (int w = 0; w < nw; ++w) {
                if (pid[size_t(w)] < 0) continue;
                Slot& s = x.shm->slot[w]; int st; std::string log = logs + "/w" + std::to_string(w) + ".log";
                pid_t r = waitpid(pid[size_t(w)], &st, WNOHANG);
                bool died = false, hung = false;
                if (r == pid[size_t(w)]) {
                    if (s.done.load()) { pid[size_t(w)] = -1; --live; continue; }
                    died = true;
                } else {
                    uint64_t b = s.beat.load();
                    if (b != beat[size_t(w)]) { beat[size_t(w)] = b; when[size_t(w)] = now(); }
                    else if (now() - when[size_t(w)] > hang) { kill(pid[size_t(w)], SIGKILL); waitpid(pid[size_t(w)], &st, 0); hung = true; }
                }
                if (!died && !hung) continue;
                int64_t u = s.unit.load(); uint64_t i = s.idx.load(); Case c = s.c;
                if (died) {
                    std::string m = WIFSIGNALED(st) ? fmt("crashed with signal %d (%s) ", WTERMSIG(st), strsignal(WTERMSIG(st))) : fmt("ended with exit status %d ", WEXITSTATUS(st));
                    m += read_log(log);
                    push_viol(x.shm, u, i, c, m.c_str());
                } else {
                    int rr = replay_child(u, i, 5 * hang, workers_max - 1, log);
                    if (rr == 2) push_viol(x.shm, u, i, c, fmt("does not terminate (no answer within %.0f s, run alone)", 5 * hang).c_str());
                }
                if (++restarts[size_t(u)] > 8 || x.shm->abort_all.load()) { spawn(w, -1, 0); capped = true; }
                else spawn(w, u, i + 1);
            }
        }
        uint64_t tr = 0, tc = 0, ev = 0;
        for (int w = 0; w < workers_max; ++w) { tr += x.shm->slot[w].transitions; tc += x.shm->slot[w].traces; ev += x.shm->slot[w].evals; }
        uint64_t ns = 0, no = 0;
        for (uint64_t i = 0; i < state_bits / 8; i += 8) { uint64_t v; memcpy(&v, x.shm->states + i, 8); if (v) ns += uint64_t(__builtin_popcountll(v)); }
        for (uint64_t i = 0; i < outc_bits / 8; ++i) no += uint64_t(__builtin_popcount(x.shm->outc[i]));
        FILE* f = out ? fopen(out, "w") : stdout; if (!f) { perror("out"); return 99; }
        int nv = std::min<int>(x.shm->nviol.load(), viol_max);
        fprintf(f, "{\"units\":%zu,\"evals\":%llu,\"states\":%llu,\"transitions\":%llu,\"traces\":%llu,\"outcomes\":%llu,\"capped\":%s,\"seconds\":%.2f,\"violations\":[",
            units().size(), (unsigned long long)ev, (unsigned long long)ns, (unsigned long long)tr, (unsigned long long)tc, (unsigned long long)no,
            (capped || x.shm->abort_all.load()) ? "true" : "false", now() - t0);
        for (int k = 0; k < nv; ++k) {
            Viol& v = x.shm->viol[k];
            fprintf(f, "%s\n{\"unit\":\"%s\",\"idx\":%llu,\"label\":\"%s\",\"data\":\"%s\",\"size\":%u,\"text\":\"%s\",\"msg\":\"%s\"}", k ? "," : "",
                v.unit >= 0 ? esc(units()[size_t(v.unit)].name).c_str() : "?", (unsigned long long)v.idx, esc(v.c.label, strlen(v.c.label)).c_str(),
                hex(v.c.data, v.c.n).c_str(), v.c.full, esc((const char*)v.c.data, v.c.n).c_str(), esc(v.msg, strlen(v.msg)).c_str());
        }
        fprintf(f, "],\"samples\":[");
        int m = std::min<int>(x.shm->nsamp.load(), samp_max);
        for (int k = 0; k < m; ++k) fprintf(f, "%s\"%s\"", k ? "," : "", esc(x.shm->samp[k].txt, strlen(x.shm->samp[k].txt)).c_str());
        fprintf(f, "]}\n");
        if (out) fclose(f);
        return nv ? 1 : 0;
    }

}   // mc

#if defined(__SANITIZE_ADDRESS__)
extern "C" const char* __asan_default_options() { return "detect_leaks=0:exitcode=77:allocator_may_return_null=1:handle_segv=1:detect_stack_use_after_return=0:symbolize=0:max_malloc_fill_size=256"; }
#endif
extern "C" const char* __ubsan_default_options();
extern "C" __attribute__((weak)) const char* __ubsan_default_options() { return "print_stacktrace=0:halt_on_error=1:exitcode=78"; }
