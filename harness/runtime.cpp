// Contracts for cmmc/Runtime/cmmc_sysy_rt.cpp (the library linked into compiled programs).
// The real source is included, so its internal state is visible to the contracts.
#include "vf.hpp"
#include <cstdarg>
#include VF_RUNTIME_SOURCE
#include <mutex>

// ---- parallel for ------------------------------------------------------------
// ghost state: the sub-ranges executed so far
namespace ghost {
struct Launch {
    int32_t beg, end;
    bool rightFunc, joined;
    void* worker;
};
static Launch launches[16];
static int n;
static std::mutex mtx;
static void body(int32_t beg, int32_t end) {
    if(!vf_engine())
        mtx.lock();
    if(n < 16)
        launches[n++] = { beg, end, true, true, nullptr };
    if(!vf_engine())
        mtx.unlock();
}
}  // namespace ghost
// a worker runs the function it was given over the range it was given once it is
// signalled, and answers the wait on `done`
extern "C" void postContract(void* self) __asm__("vfc__ZN12_GLOBAL__N_15Futex4postEv") __attribute__((used));
static void workerPostContract(void* self);
static void workerWaitContract(void* self);
namespace ghost {
extern Worker* worker;
}
void postContract(void* self) {
    if(ghost::worker) {
        workerPostContract(self);
        return;
    }
    for(auto& w : workers)
        if(&w.ready == self) {
            for(int i = 0; i < ghost::n; ++i)
                vf_assert(ghost::launches[i].worker != &w || ghost::launches[i].joined, "parallel-for/worker-is-idle-when-signalled");
            vf_assert(ghost::n < 16, "parallel-for/launch-count");
            ghost::launches[ghost::n++] = { w.beg.load(), w.end.load(), w.func.load() == ghost::body, false, &w };
            return;
        }
    vf_assert(false, "parallel-for/only-worker-semaphores-are-posted");
}
extern "C" void waitContract(void* self) __asm__("vfc__ZN12_GLOBAL__N_15Futex4waitEv") __attribute__((used));
void waitContract(void* self) {
    if(ghost::worker) {
        workerWaitContract(self);
        return;
    }
    for(auto& w : workers)
        if(&w.done == self)
            for(int i = 0; i < ghost::n; ++i)
                if(ghost::launches[i].worker == &w && !ghost::launches[i].joined) {
                    ghost::launches[i].joined = true;
                    return;
                }
    vf_assert(false, "parallel-for/waits-only-for-launched-workers");
}
static void havocEntry(ParallelForEntry& e) {
    e.size = vf_sym("size", 32);
    e.valid = vf_sym("valid", 1);
    e.hitCount = vf_sym("hitCount", 32);
    e.bestThreads = vf_sym("bestThreads", 32);
    e.func = vf_sym("sameFunc", 1) ? ghost::body : nullptr;
    for(auto& t : e.times)
        t = vf_sym("time", 62);
    vf_assume(e.bestThreads <= 2);
}
#define SELECT_ENTRY "_ZL11selectEntryPFviiEj"
static bool fromCache(const ParallelForEntry* e) {
    for(auto& c : parallelCache)
        if(e == &c)
            return true;
    return false;
}
extern "C" ParallelForEntry* pickEntry(CmmcForLoop func, uint32_t size) __asm__("vfc_" SELECT_ENTRY) __attribute__((used));
ParallelForEntry* pickEntry(CmmcForLoop func, uint32_t size) {
    ParallelForEntry& e = parallelCache[0];
    havocEntry(e);
    e.valid = true;
    e.func = func;
    e.size = size;
    return &e;
}
// any time may pass
extern "C" int clockContract(int, timespec* t) __asm__("vfc_clock_gettime") __attribute__((used));
int clockContract(int, timespec* t) {
    t->tv_sec = vf_fresh(31);
    t->tv_nsec = vf_fresh(29);
    return 0;
}
VF_ENTRY void rt_selectEntry(uint64_t ptr, uint64_t rest) {
    vf_disable_contract(SELECT_ENTRY);
    // bounded: three entries are arbitrary, the others empty or used by other loops
    for(uint32_t i = 0; i < entryCount; ++i) {
        ParallelForEntry& e = parallelCache[i];
        if(i % 5 == 2)
            havocEntry(e);
        else {
            e.valid = rest;
            e.func = nullptr;
            e.hitCount = vf_sym("hits", 32);
        }
    }
    lookupPtr = ptr;
    const uint32_t size = vf_sym("n", 32);
    vf_cover("selectEntry");
    ParallelForEntry& e = selectEntry(ghost::body, size);
    vf_assert(fromCache(&e), "parallel-for/statistics-slot-in-table");
    vf_assert(lookupPtr <= entryCount, "parallel-for/statistics-cursor-in-table");
    for(auto& c : parallelCache)
        vf_assert(c.bestThreads <= 2, "parallel-for/thread-count-invariant");
    vf_assert(e.valid & (e.size == size), "parallel-for/statistics-of-this-loop");
}
VF_ENTRY void rt_parallelFor() {
    if(!vf_engine()) {  // the real cache, reached through the real selectEntry
        ParallelForEntry& e = parallelCache[0];
        pickEntry(ghost::body, 0);
    }
    const int32_t beg = vf_sym("beg", 32), end = vf_sym("end", 32);
    if(!vf_engine())
        parallelCache[0].size = static_cast<uint32_t>(end) - static_cast<uint32_t>(beg);
    vf_cover("parallelFor");
    cmmcParallelFor(beg, end, ghost::body);
    vf_assert(parallelCache[0].bestThreads <= 2, "parallel-for/thread-count-invariant");
    for(int i = 0; i < ghost::n; ++i) {
        vf_assert(ghost::launches[i].rightFunc, "parallel-for/loop-body-is-the-one-passed");
        vf_assert(ghost::launches[i].joined, "parallel-for/every-worker-is-joined");
        vf_assert(ghost::launches[i].beg < ghost::launches[i].end, "parallel-for/sub-range-is-not-empty");
    }
    const int32_t k = vf_sym("k", 32);
    uint32_t times = 0;
    for(int i = 0; i < ghost::n; ++i)
        times += (ghost::launches[i].beg <= k) & (k < ghost::launches[i].end);
    vf_assert(times <= 1, "parallel-for/no-iteration-twice");
    vf_assert((times == 1) == ((beg <= k) & (k < end)), "parallel-for/exactly-the-iterations-of-the-loop");
    if(!vf_engine()) {
        // the same question for every boundary, so that a search needs no luck with k
        for(int i = 0; i < ghost::n; ++i)
            for(int64_t q : { int64_t(beg), int64_t(end) - 1, int64_t(end), int64_t(beg) - 1, int64_t(ghost::launches[i].beg), int64_t(ghost::launches[i].end), int64_t(ghost::launches[i].end) - 1 }) {
                if(q < INT32_MIN || q > INT32_MAX)
                    continue;
                int c = 0;
                for(int j = 0; j < ghost::n; ++j)
                    c += ghost::launches[j].beg <= q && q < ghost::launches[j].end;
                vf_assert(c == (beg <= q && q < end), "parallel-for/exactly-the-iterations-of-the-loop");
            }
    }
}
// ---- workers and semaphores -----------------------------------------------------
// the system calls of a semaphore; other threads may act while it waits
namespace ghost {
static std::atomic_uint32_t* word;
static int posts, taken, wakes, waits;
static int bodies, answered, seen;
static bool inOrder = true;
static int32_t begSeen, endSeen;
Worker* worker;
static void workerBody(int32_t beg, int32_t end) {
    inOrder = inOrder & (bodies == answered) & (seen == bodies + 1);
    begSeen = beg;
    endSeen = end;
    ++bodies;
}
}  // namespace ghost
#define FUTEX_POST "_ZN12_GLOBAL__N_15Futex4postEv"
#define FUTEX_WAIT_FN "_ZN12_GLOBAL__N_15Futex4waitEv"
extern "C" long syscallContract(long nr, long addr, long op, long val) __asm__("vfc_syscall") __attribute__((used));
long syscallContract(long nr, long addr, long op, long val) {
    if(nr != SYS_futex)
        return 0;
    if(reinterpret_cast<std::atomic_uint32_t*>(addr) != ghost::word)
        vf_assert(false, "semaphore/waits-on-its-own-word");
    if((op & 127) == FUTEX_WAIT) {
        vf_assert(static_cast<uint32_t>(val) == 0, "semaphore/sleeps-only-while-the-count-is-zero");
        if(++ghost::waits == 3)
            vf_stop();
        if(vf_sym("postedMeanwhile", 1)) {
            ghost::word->store(1);
            ++ghost::posts;
        }
    } else {
        vf_assert((op & 127) == FUTEX_WAKE && val >= 1, "semaphore/wakes-a-sleeper");
        vf_assert(ghost::word->load() == 1, "semaphore/count-is-set-before-the-wake-up");
        ++ghost::wakes;
    }
    return 0;
}
// replays: the system calls on the semaphore under test go through the contract
extern "C" long syscall(long nr, ...) noexcept {
    va_list ap;
    va_start(ap, nr);
    long a[6];
    for(auto& x : a)
        x = va_arg(ap, long);
    va_end(ap);
    if(nr == SYS_futex && ghost::word && reinterpret_cast<void*>(a[0]) == ghost::word)
        return syscallContract(nr, a[0], a[1], a[2]);
#ifdef VF_NATIVE
    register long r10 __asm__("r10") = a[3];
    register long r8 __asm__("r8") = a[4];
    register long r9 __asm__("r9") = a[5];
    long ret;
    __asm__ volatile("syscall" : "=a"(ret) : "a"(nr), "D"(a[0]), "S"(a[1]), "d"(a[2]), "r"(r10), "r"(r8), "r"(r9) : "rcx", "r11", "memory");
    return ret;
#else
    return 0;
#endif
}
static Futex semaphoreUnderTest;
VF_ENTRY void rt_futexWait() {
    vf_disable_contract(FUTEX_WAIT_FN);
    Futex& f = semaphoreUnderTest;
    ghost::word = reinterpret_cast<std::atomic_uint32_t*>(&f);
    ghost::posts = vf_sym("count", 1);
    ghost::word->store(ghost::posts);
    vf_cover("futexWait");
    f.wait();
    vf_assert(ghost::posts == 1, "semaphore/wait-returns-only-after-a-post");
    vf_assert(ghost::word->load() == 0, "semaphore/wait-takes-the-post");
}
VF_ENTRY void rt_futexPost() {
    vf_disable_contract(FUTEX_POST);
    Futex& f = semaphoreUnderTest;
    ghost::word = reinterpret_cast<std::atomic_uint32_t*>(&f);
    const uint32_t before = vf_sym("count", 1);
    ghost::word->store(before);
    vf_cover("futexPost");
    f.post();
    vf_assert(ghost::word->load() == 1, "semaphore/post-is-recorded");
    vf_assert(before == 1 || ghost::wakes == 1, "semaphore/post-wakes-the-waiter");
}
// a worker: signalled -> body over its range -> answer, again and again
static void workerWaitContract(void* self) {
    if(self != &ghost::worker->ready)
        vf_assert(false, "worker/waits-for-its-own-signal");
    vf_assert(ghost::seen == ghost::answered, "worker/answers-before-the-next-signal");
    if(++ghost::seen == 3)
        ghost::worker->run = 0;
    else {
        ghost::worker->func = ghost::workerBody;
        ghost::worker->beg = static_cast<int32_t>(vf_sym("wbeg", 32));
        ghost::worker->end = static_cast<int32_t>(vf_sym("wend", 32));
    }
}
static void workerPostContract(void* self) {
    if(self != &ghost::worker->done)
        vf_assert(false, "worker/answers-on-its-own-semaphore");
    vf_assert(ghost::bodies == ghost::answered + 1 && ghost::seen == ghost::bodies, "worker/answers-after-the-body");
    vf_assert(ghost::begSeen == ghost::worker->beg.load() && ghost::endSeen == ghost::worker->end.load(), "worker/runs-its-own-range");
    ++ghost::answered;
}
extern "C" int affinityContract(int, size_t, const cpu_set_t*) __asm__("vfc_sched_setaffinity") __attribute__((used));
int affinityContract(int, size_t, const cpu_set_t*) {
    return 0;
}
VF_ENTRY void rt_worker(uint64_t i) {
    if(!vf_engine())
        return;
    ghost::worker = &workers[i];
    ghost::worker->run = 1;
    ghost::worker->core = i;
    vf_cover("worker");
    cmmcWorker(ghost::worker);
    vf_assert(ghost::inOrder, "worker/one-body-per-signal");
    vf_assert(ghost::bodies == 2 && ghost::answered == 2, "worker/one-body-per-signal");
}
// ---- memo table ----------------------------------------------------------------
// abstract view: arguments -> remembered result.  Table invariant at the queried
// arguments: an entry that holds the key of (k1, k2) and a value holds F(k1, k2).
// One arbitrary entry of the table is looked at: accesses to other entries are not
// followed, so nothing is concluded from what they hold.
constexpr uint32_t tableSize = 1021;  // entries of the table the compiler allocates (StatelessCache.cpp)
static LUTEntry whole[tableSize], one[2];
static LUTEntry* tableAround(LUTEntry* entry, uint64_t slot) {
    return vf_engine() ? entry - slot : whole;
}
VF_ENTRY void rt_cacheKey() {
    const uint64_t slot = vf_sym("slot", 10);
    vf_assume(slot < tableSize);
    const int a1 = vf_sym("a1", 32), a2 = vf_sym("a2", 32), b1 = vf_sym("b1", 32), b2 = vf_sym("b2", 32);
    vf_assume((a1 != b1) | (a2 != b2));
    LUTEntry* table = tableAround(&one[1], slot);
    vf_restrict(&one[1], &one[2]);
    // a value remembered for (a1, a2) ...
    LUTEntry* e = cmmcCacheLookup(table, a1, a2);
    vf_cover("stored");
    vf_assert(!e->hasVal, "cache/empty-table-has-no-value");
    e->val = vf_sym("val", 32);
    e->hasVal = 1;
    // ... is not returned for other arguments
    LUTEntry* f = cmmcCacheLookup(table, b1, b2);
    vf_cover("looked up");
    vf_assert(!f->hasVal, "cache/no-value-of-other-arguments");
}
VF_ENTRY void rt_cacheLookup() {
    const uint64_t slot = vf_sym("slot", 10);
    vf_assume(slot < tableSize);
    const int a = vf_sym("a1", 32), b = vf_sym("a2", 32);
    LUTEntry* table = tableAround(&one[1], slot);
    vf_restrict(&one[1], &one[2]);
    LUTEntry* e0 = cmmcCacheLookup(table, a, b);
    vf_assert(!e0->hasVal, "cache/empty-table-has-no-value");
    const uint64_t key = e0->key;
    // an arbitrary entry at the place the key maps to
    LUTEntry& s = *e0;
    const uint64_t k0 = s.key = vf_sym("otherKey", 64);
    const uint32_t v0 = s.val = vf_sym("val", 32), h0 = s.hasVal = vf_sym("hasVal", 1);
    LUTEntry* r = cmmcCacheLookup(table, a, b);
    vf_cover("occupied slot");
    vf_assert(r->key == key, "cache/entry-belongs-to-the-arguments");
    vf_assert(!r->hasVal | ((r == &s) & (k0 == key) & (h0 != 0) & (static_cast<uint32_t>(r->val) == v0)), "cache/only-a-stored-value-is-returned");
    if((k0 == key) & (h0 != 0))
        vf_assert(r->hasVal, "cache/stored-value-is-found");
}
// every entry the lookup may touch lies inside the table, whatever the table holds
VF_ENTRY void rt_cacheBounds() {
    const int a = vf_sym("a1", 32), b = vf_sym("a2", 32);
    if(vf_engine()) {
        // a window with an entry's worth of room before and behind the table
        LUTEntry* table = one + 1;
        const uint64_t off = vf_sym("outside", 20);
        // the table is placed so that one entry outside of it is the only memory followed
        const bool before = vf_sym("before", 1);
        table = before ? &one[1] + 1 + off : &one[1] - tableSize - off;
        vf_restrict(&one[1], &one[2]);
        vf_cover("placed");
        cmmcCacheLookup(table, a, b);
        vf_assert(false, "cache/lookup-stays-in-the-table");
    } else {
        static LUTEntry wide[3 * tableSize];
        LUTEntry* e = cmmcCacheLookup(wide + tableSize, a, b);
        vf_assert(e >= wide + tableSize && e < wide + 2 * tableSize, "cache/lookup-stays-in-the-table");
    }
}
VF_ENTRY void rt_addRec() {
    const int32_t x = vf_sym("x", 32), m = vf_sym("m", 32);
    vf_assume((m != 0) & (m != -1));
    vf_cover("sum of an arithmetic progression");
    const int64_t n = x;
    const int32_t r = cmmcAddRec3SRem(x, m);
    // 0 + 1 + ... + (n-1), taken modulo m with the sign of the dividend
    const int64_t twice = n * (n - 1);
    vf_assert(r == static_cast<int32_t>((twice >> 1) % m), "add-recurrence/remainder-of-the-sum");
}
