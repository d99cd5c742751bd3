// Native side of the harness interface: runs recorded cases against the real code.
// Usage: prog FILE [index]   runs every case of FILE (or one) and prints a line per case.
#include "sx.h"
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <dlfcn.h>
#include <fstream>
#include <new>
#include <new>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
#include <map>
static std::int64_t g_live = 0; static std::uint64_t g_allocs = 0; static bool g_count = false;
static std::map<void*, int>* g_ptrs = nullptr; static std::uint64_t g_fail = 0;
static void* take(std::size_t n) { if (g_count && g_fail && --g_fail == 0) throw std::bad_alloc(); void* p = std::malloc(n ? n : 1); if (!p) std::abort(); if (g_count) { g_count = false; ++g_live; ++g_allocs; (*g_ptrs)[p] = 1; g_count = true; } return p; }
static void give(void* p) { if (!p) return; if (g_count) { g_count = false; auto it = g_ptrs->find(p); if (it != g_ptrs->end()) { --g_live; g_ptrs->erase(it); } g_count = true; } std::free(p); }
void* operator new(std::size_t n) { return take(n); }
void* operator new[](std::size_t n) { return take(n); }
void operator delete(void* p) noexcept { give(p); }
void operator delete[](void* p) noexcept { give(p); }
void operator delete(void* p, std::size_t) noexcept { give(p); }
void operator delete[](void* p, std::size_t) noexcept { give(p); }
namespace {
struct In { bool buf; unsigned long long v; unsigned es; std::vector<std::pair<unsigned long long, std::string>> el; };
struct Case { std::string entry; std::vector<In> in; bool hasObs = false; std::vector<unsigned long long> obs; };
Case* cur; std::size_t pos; std::vector<unsigned long long> seen; std::string fail; std::vector<std::pair<void*, std::size_t>> maps;
struct Off { bool o; Off() : o(g_count) { g_count = false; } ~Off() { g_count = o; } };
In& next(bool buf) { if (pos >= cur->in.size() || cur->in[pos].buf != buf) { std::printf("RESULT MISMATCH inputs asked for differ from the recorded ones\n"); std::fflush(stdout); _exit(4); } return cur->in[pos++]; }
void put(unsigned char* d, unsigned es, const std::string& h) { unsigned char b[64] = {}; int n = h.size(); for (int i = 0; i < n; ++i) { char c = h[n - 1 - i]; int v = c <= '9' ? c - '0' : (c | 32) - 'a' + 10; b[i / 2] |= v << (4 * (i % 2)); } std::memcpy(d, b, es); }
}
extern "C" {
std::uint64_t sx_sym(const char*, unsigned) { Off o; return next(false).v; }
std::uint64_t sx_range(const char*, std::uint64_t lo, std::uint64_t hi) { Off o; auto v = next(false).v; if (v < lo || v > hi) { std::printf("RESULT MISMATCH range\n"); std::fflush(stdout); _exit(4); } return v; }
void* sx_buf(const char*, std::uint64_t n, std::uint64_t max, std::uint64_t es) { Off o; In& i = next(true);
    unsigned char* p; std::size_t sz = n * es;
    static const bool mm = std::getenv("SX_MMAP") != nullptr; if (mm || max * es > (1u << 20)) { std::size_t page = (sz + 4095) / 4096 * 4096; unsigned char* m = (unsigned char*)mmap(nullptr, page + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); if (m == MAP_FAILED) { std::printf("RESULT SKIP no address space\n"); std::fflush(stdout); _exit(5); }
        mprotect(m + page, 4096, PROT_NONE); p = m + (page - sz); maps.push_back({m, page + 4096}); for (auto& e : i.el) if (e.first < n) put(p + e.first * es, es, e.second); mprotect(m, page, PROT_READ); }
    else { p = (unsigned char*)std::malloc(sz); std::memset(p, 0, sz); for (auto& e : i.el) if (e.first < n) put(p + e.first * es, es, e.second); maps.push_back({p, 0}); }
    return p; }
void sx_assume(bool c) { if (!c) { std::printf("RESULT MISMATCH assumption\n"); std::fflush(stdout); _exit(4); } }
void sx_assert(bool c, const char* m) { if (!c) { Off o; std::printf("RESULT ASSERT %s\n", m); std::fflush(stdout); _exit(1); } }
void sx_cover(const char*) {}
void sx_observe(std::uint64_t v) { Off o; seen.push_back(v); }
std::uint64_t sx_fork(std::uint64_t v) { return v; }
std::uint64_t sx_heap_live() { return g_live; }
std::uint64_t sx_alloc_fail(std::uint64_t k) { auto w = g_fail; g_fail = k; return w; }
std::uint64_t sx_allocs() { return g_allocs; }
void sx_readonly(const void*) {}
void sx_writable(const void*) {}
}
int main(int argc, char** argv) {
    g_ptrs = new std::map<void*, int>;
    std::ifstream f(argv[1]); std::string line; std::vector<Case> cs; 
    while (std::getline(f, line)) { std::istringstream s(line); std::string k; s >> k;
        if (k == "case") { cs.emplace_back(); s >> cs.back().entry; }
        else if (k == "i") { In i{}; i.buf = false; std::string h; s >> h; i.v = std::stoull(h, nullptr, 16); cs.back().in.push_back(i); }
        else if (k == "b") { In i{}; i.buf = true; std::string n, e, name; s >> n >> e >> name; i.v = std::stoull(n, nullptr, 16); i.es = std::stoul(e); std::string t; while (s >> t) { auto c = t.find(':'); i.el.push_back({std::stoull(t.substr(0, c), nullptr, 16), t.substr(c + 1)}); } cs.back().in.push_back(i); }
        else if (k == "o") { cs.back().hasObs = true; std::string h; while (s >> h) cs.back().obs.push_back(std::stoull(h, nullptr, 16)); } }
    int only = argc > 2 ? std::atoi(argv[2]) : -1; int bad = 0;
    for (std::size_t k = 0; k < cs.size(); ++k) { if (only >= 0 && (int)k != only) continue;
        if (cs.size() > 1 && only < 0) { // each case in a process of its own: harnesses keep state in globals
            std::fflush(stdout); pid_t c = fork(); if (c != 0) { int st = 0; waitpid(c, &st, 0); if (WIFEXITED(st) && WEXITSTATUS(st) == 0) continue;
                std::printf("RESULT CASE %zu %s status %d\n", k, cs[k].entry.c_str(), st); std::fflush(stdout); return WIFEXITED(st) ? WEXITSTATUS(st) : 1; } only = (int)k; }
        cur = &cs[k]; pos = 0; seen.clear(); auto fn = (void (*)())dlsym(RTLD_DEFAULT, cur->entry.c_str());
        if (!fn) { std::printf("RESULT NOENTRY %s\n", cur->entry.c_str()); return 3; }
        const unsigned char* wp = nullptr; std::size_t wn = 0; std::string before; if (const char* w = std::getenv("SX_WATCH")) { wp = (const unsigned char*)std::strtoull(w, nullptr, 16); wn = std::strtoull(std::strchr(w, ':') + 1, nullptr, 16); before.assign((const char*)wp, wn); }
        g_live = 0; g_allocs = 0; g_ptrs->clear(); g_count = true;
        try { fn(); } catch (...) { g_count = false; std::printf("RESULT EXCEPTION escaped\n"); std::fflush(stdout); _exit(1); }
        g_count = false;
        if (wp && before != std::string((const char*)wp, wn)) { std::printf("RESULT GLOBAL state changed by the parse\n"); std::fflush(stdout); _exit(1); }
        if (g_live != 0) { std::printf("RESULT LEAK %lld\n", (long long)g_live); std::fflush(stdout); _exit(1); }
        if (cur->hasObs && seen != cur->obs) { ++bad; std::printf("RESULT OBSERVED case %zu %s:", k, cur->entry.c_str()); for (auto v : seen) std::printf(" %llx", v); std::printf(" expected"); for (auto v : cur->obs) std::printf(" %llx", v); std::printf("\n"); }
        for (auto& m : maps) { if (m.second) munmap(m.first, m.second); else std::free(m.first); } maps.clear();
    }
    if (only >= 0 && cs.size() > 1 && argc <= 2) { std::fflush(stdout); _exit(bad ? 6 : 0); }
    std::printf("RESULT %s %zu\n", bad ? "DIFFER" : "OK", only >= 0 ? (std::size_t)1 : cs.size()); std::fflush(stdout); return bad ? 6 : 0;
}
