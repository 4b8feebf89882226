// Native implementation of vf.hpp: replays a counterexample of the verifier, or
// searches for one, by running the same harness against the compiled code.
//   prog replay FILE entry args...      exit 3: the obligation fails, 0: it does not
//   prog search SECONDS SEED OUT entry args...
#include "../vf.hpp"
#include <csetjmp>
#include <csignal>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <ctime>
#include <dlfcn.h>
#include <fstream>
#include <iostream>
#include <map>
#include <random>
#include <sstream>
#include <string>
#include <sys/mman.h>
#include <sys/wait.h>
#include <unistd.h>
#include <vector>
static std::map<std::string, uint64_t> given;
static std::map<std::string, int> counter;
static std::vector<std::pair<std::string, uint64_t>> record;
static bool searching;
static std::mt19937_64 rng;
static const char* outFile;
static std::vector<uint64_t> pool;

// counterexamples of the verifier that guide the search
static std::vector<std::map<std::string, uint64_t>> hints;
static const std::map<std::string, uint64_t>* hint;
static unsigned keep;
static uint64_t pick(unsigned bits) {
    uint64_t mask = bits >= 64 ? ~0ULL : (1ULL << bits) - 1, v = 0;
    auto power = [&] { return 1ULL << (rng() % bits); };
    switch(rng() % 12) {
        case 0: v = rng(); break;
        case 1: v = rng() % 8; break;
        case 2: v = -(rng() % 8); break;
        case 3: v = power(); break;
        case 4: v = power() + rng() % 3 - 1; break;
        case 5: v = -power() + rng() % 3 - 1; break;
        case 6: v = (1ULL << (bits - 1)) + rng() % 5 - 2; break;
        case 7: v = rng() % 256; break;
        case 8: v = power() | power() | power(); break;
        case 9:
        case 10:
            if(!pool.empty()) {
                v = pool[rng() % pool.size()] + rng() % 3 - 1;
                break;
            }
            [[fallthrough]];
        default: v = (rng() >> (rng() % 64)); break;
    }
    pool.push_back(v);
    return v & mask;
}
static uint64_t input(const char* name, unsigned bits, uint64_t n) {
    std::string k = std::string(name) + "#" + std::to_string(counter[name]++);
    if(searching) {
        uint64_t v = n ? rng() % n : pick(bits);
        if(hint && rng() % 16 < keep) {
            auto h = hint->find(k);
            if(h != hint->end() && !(n && h->second >= n))
                v = h->second;
        }
        record.push_back({ k, v });
        return v;
    }
    auto it = given.find(k);
    uint64_t v = it == given.end() ? 0 : it->second;
    if(n && v >= n)
        v = 0;
    return v;
}
static void violated(const char* name) {
    if(searching) {
        std::ofstream o(outFile);
        o << "# found by search\n# obligation " << name << "\n";
        for(auto& [k, v] : record)
            o << k << " " << v << "\n";
        o.close();
    } else
        printf("VIOLATED %s\n", name);
    fflush(stdout);
    _exit(3);
}
extern "C" {
bool vf_engine() { return false; }
uint64_t vf_sym(const char* name, unsigned bits) { return input(name, bits, 0); }
uint64_t vf_fresh(unsigned) { return 0; }
uint64_t vf_dom(const char* name, uint64_t n) { return input(name, 64, n); }
uint64_t vf_concretize(uint64_t x) { return x; }
bool vf_is_concrete(uint64_t) { return true; }
void vf_assume(bool c) { if(!c) _exit(0); }
void vf_assert(bool c, const char* name) { if(!c) violated(name); }
bool vf_known(bool c) { return c; }
void vf_cover(const char*) {}
void vf_stop() { _exit(0); }
void vf_disable_contract(const char*) {}
void vf_enable_contract(const char*) {}
void vf_print(const char* name, uint64_t v) { if(!searching) printf("%s %llu\n", name, (unsigned long long)v); }
uint64_t vf_ite(bool c, uint64_t a, uint64_t b) { return c ? a : b; }
uint64_t vf_opaque(uint64_t x) { return x; }
void vf_restrict(const void*, const void*) {}
}
// lazily initialised objects: the first access faults, the handler fills the object in
struct Lazy { char* page; size_t len; void* p; void (*h)(void*, uint64_t); uint64_t arg; bool done; };
static std::vector<Lazy>& lazies() { static auto* v = new std::vector<Lazy>; return *v; }
extern "C" void* vf_lazy_alloc(uint64_t size) {
    size_t len = (size + 4095) / 4096 * 4096;
    return mmap(nullptr, len, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
}
extern "C" void vf_lazy(void* p, uint64_t size, void (*h)(void*, uint64_t), uint64_t arg) {
    size_t len = (size + 4095) / 4096 * 4096;
    lazies().push_back({ (char*)p, len, p, h, arg, false });
    mprotect(p, len, PROT_NONE);
}
static const char* where = "crash";
static void onSegv(int sig, siginfo_t* si, void*) {
    char* a = (char*)si->si_addr;
    if(sig == SIGSEGV)
        for(size_t i = 0; i < lazies().size(); ++i) {
            Lazy l = lazies()[i];
            if(!l.done && a >= l.page && a < l.page + l.len) {
                lazies()[i].done = true;
                mprotect(l.page, l.len, PROT_READ | PROT_WRITE);
                l.h(l.p, l.arg);
                return;
            }
        }
    char buf[64];
    int n = snprintf(buf, sizeof buf, "SIGNAL %d\n", sig);
    if(!searching && write(1, buf, n)) {}
    _exit(4);
}
static int runEntry(int argc, char** argv) {
    auto f = (void (*)(uint64_t, uint64_t, uint64_t, uint64_t))dlsym(RTLD_DEFAULT, argv[0]);
    if(!f) {
        fprintf(stderr, "no entry %s\n", argv[0]);
        _exit(2);
    }
    uint64_t a[4] = {};
    for(int i = 1; i < argc && i < 5; ++i)
        a[i - 1] = strtoull(argv[i], nullptr, 0);
    struct sigaction sa = {};
    sa.sa_sigaction = onSegv;
    sa.sa_flags = SA_SIGINFO | SA_NODEFER;
    for(int s : { SIGSEGV, SIGFPE, SIGABRT, SIGBUS, SIGILL })
        sigaction(s, &sa, nullptr);
    f(a[0], a[1], a[2], a[3]);
    return 0;
}
int main(int argc, char** argv) {
    if(argc < 4)
        return 2;
    if(!strcmp(argv[1], "replay")) {
        std::ifstream in(argv[2]);
        std::string line;
        while(std::getline(in, line)) {
            if(line.empty() || line[0] == '#')
                continue;
            std::istringstream is(line);
            std::string k;
            uint64_t v;
            if(is >> k >> v)
                given[k] = v;
        }
        alarm(20);
        runEntry(argc - 3, argv + 3);
        fflush(stdout);
        _exit(0);
    }
    if(const char* files = getenv("VF_HINTS")) {
        std::istringstream names(files);
        std::string name, line, k;
        while(std::getline(names, name, ':')) {
            std::ifstream in(name);
            hints.emplace_back();
            while(std::getline(in, line)) {
                std::istringstream is(line);
                uint64_t v;
                if(!line.empty() && line[0] != '#' && is >> k >> v)
                    hints.back()[k] = v;
            }
            if(hints.back().empty())
                hints.pop_back();
        }
    }
    double limit = atof(argv[2]);
    uint64_t seed = strtoull(argv[3], nullptr, 0);
    outFile = argv[4];
    searching = true;
    timespec t0, t;
    clock_gettime(CLOCK_MONOTONIC, &t0);
    for(uint64_t n = 0;; ++n) {
        clock_gettime(CLOCK_MONOTONIC, &t);
        if(t.tv_sec - t0.tv_sec + (t.tv_nsec - t0.tv_nsec) * 1e-9 > limit)
            break;
        pid_t p = fork();
        if(!p) {
            alarm(5);
            rng.seed(seed * 1000003 + n);
            if(!hints.empty() && n % 4) {
                hint = &hints[rng() % hints.size()];
                keep = 8 + rng() % 8;
                for(auto& [k, v] : *hint)
                    pool.push_back(v);
            }
            if(!freopen("/dev/null", "w", stderr)) {}
            runEntry(argc - 5, argv + 5);
            _exit(0);
        }
        int st = 0;
        waitpid(p, &st, 0);
        if(WIFEXITED(st) && WEXITSTATUS(st) == 3)
            return 3;
    }
    return 0;
}
