// Scheduler implementation (compiled without the redirecting macros).
#define VF_PLAIN
#include "vf.hh"
#include "sched.hh"

#include <csignal>
#include <unistd.h>
#include <fcntl.h>

namespace vf {
    thread_local int tid = -1;

    struct Rng {
        uint64_t s = 88172645463325252ull;
        void Seed(uint64_t x) { s = x * 0x9E3779B97F4A7C15ull + 0x1234567ull; if (!s) s = 1; for (int i = 0; i < 4; i++) Next(); }
        uint64_t Next() { s ^= s << 13; s ^= s >> 7; s ^= s << 17; return s * 0x2545F4914F6CDD1Dull; }
        uint32_t Below(uint32_t n) { return n ? (uint32_t)((Next() >> 33) % n) : 0; }
    };

    struct Sem { // real semaphore
        std::mutex m;
        std::condition_variable c;
        bool v = false;
        void Post() { { std::lock_guard<std::mutex> g(m); v = true; } c.notify_one(); }
        void Wait() { std::unique_lock<std::mutex> g(m); c.wait(g, [&] { return v; }); v = false; }
    };

    enum St { Idle, Run, Block, Spin };
    struct Th {
        std::thread th;
        Sem sem;
        St st = Idle;
        const void *addr = nullptr;
        uint64_t modSeen = 0;
        int nonMod = 0;
        int prio = 0;
        std::deque<std::function<void()>> q;
        bool quit = false;
    };
    static std::vector<std::unique_ptr<Th>> ths;
    static Sem mainSem;
    static uint64_t modCount = 1;
    static Rng rng;
    static Strategy strat;
    static uint64_t step = 0;
    static std::vector<uint64_t> changeAt;
    static int lowPrio = 0;
    static volatile int running = -1; // -1: controller
    bool hbMode = false, dataPoints = false;
    uint64_t progress = 0;

    std::string logbuf;
    int logFd = 1;

    void Log(const std::string &line) {
        if (hbMode && tid >= 0) return; // only the happens-before records
        logbuf += line;
        logbuf += '\n';
    }
    static uint64_t instant = 0;
    uint64_t Now() { return ++instant; }
    void ResetLog() { logbuf.clear(); instant = 0; }

    static const char *Mo(std::memory_order m) {
        switch (m) {
        case std::memory_order_relaxed: return "rlx";
        case std::memory_order_consume:
        case std::memory_order_acquire: return "acq";
        case std::memory_order_release: return "rel";
        case std::memory_order_acq_rel: return "ar";
        default: return "sc";
        }
    }
    // ---- happens-before records -----------------------------------------------------------------------------------
    thread_local int inTecs = 0;
    bool recording = false;
    void RawCopy(void *to, const void *from, size_t n) { memcpy(to, from, n); }
    struct Rec { uint8_t kind, mo; int8_t t; uint32_t block; uint64_t off; uint32_t size; }; // kind: 0 ld, 1 st, 2 rmw, 3 fence, 4 read, 5 write
    static std::vector<Rec> recs;
    static void AddRec(const Rec &r) {
        int keep = inTecs;
        inTecs = 0; // the memory of the records is not Tecs's
        recs.push_back(r);
        inTecs = keep;
    }
    struct Blk { uintptr_t end; uint32_t id; };
    static std::map<uintptr_t, Blk> *blocks;
    static uint32_t nextBlock = 1;
    static std::mutex blockMutex;
    void TrackBlock(const void *p, size_t n) {
        std::lock_guard<std::mutex> g(blockMutex);
        int keep = inTecs;
        inTecs = 0;
        if (!blocks) blocks = new std::map<uintptr_t, Blk>;
        (*blocks)[(uintptr_t)p] = {(uintptr_t)p + n, nextBlock++};
        inTecs = keep;
    }
    static bool Locate(const void *p, uint32_t &id, uint64_t &off) {
        std::lock_guard<std::mutex> g(blockMutex);
        if (!blocks) return false;
        auto it = blocks->upper_bound((uintptr_t)p);
        if (it == blocks->begin()) return false;
        --it;
        if ((uintptr_t)p >= it->second.end) return false;
        id = it->second.id;
        off = (uintptr_t)p - it->first;
        return true;
    }
    void RecData(const void *addr, size_t size, bool write) {
        if (!recording || tid < 0) return;
        uint32_t id;
        uint64_t off;
        if (!Locate(addr, id, off)) return;
        AddRec({(uint8_t)(write ? 5 : 4), 0, (int8_t)tid, id, off, (uint32_t)size});
    }
    void UntrackBlock(const void *p) {
        static thread_local bool inside = false; // freeing a node of `blocks'
        if (inside) return;
        size_t n = 0;
        {
            std::lock_guard<std::mutex> g(blockMutex);
            if (!blocks) return;
            auto it = blocks->find((uintptr_t)p);
            if (it == blocks->end()) return;
            n = it->second.end - it->first;
        }
        RecData(p, n, true); // giving memory back conflicts with every access to it
        std::lock_guard<std::mutex> g(blockMutex);
        inside = true;
        blocks->erase((uintptr_t)p);
        inside = false;
    }
    void RecAtomic(const void *addr, int kind, std::memory_order mo) {
        if (!recording || tid < 0) return;
        uint32_t id = 0;
        uint64_t off = (uintptr_t)addr;
        if (addr) Locate(addr, id, off);
        AddRec({(uint8_t)kind, (uint8_t)mo, (int8_t)tid, id, off, 0});
    }
    void LogAtomic(const void *addr, Acc a, std::memory_order mo, uint64_t) {
        RecAtomic(addr, a == Acc::Load ? 0 : a == Acc::Store ? 1 : a == Acc::Rmw ? 2 : 3, mo);
    }
    void LogData(const void *addr, int kind) {
        if (tid < 0) return;
        RecData(addr, 1, kind != 0);
        if (dataPoints && kind < 2) Point();
    }
    void NewAtomic(const void *) {}

    void StartRecording() { recs.clear(); recording = true; }
    // Writes the records of a parallel phase: synchronisation operations, and after each the accesses of its thread up to the
    // thread's next one. Accesses are per byte; bytes with the same history become one location, bytes that no two threads
    // access, or that nobody writes, are left out.
    void EndRecording() {
        recording = false;
        Log("{\"k\":\"bar\"}");
        // atomics that only one thread uses order nothing
        std::map<std::pair<uint32_t, uint64_t>, std::set<int>> users;
        for (auto &r : recs) if (r.kind < 3) users[{r.block, r.off}].insert(r.t);
        // events: a synchronisation, or the beginning of a thread
        std::vector<int> evOf(recs.size(), -1);
        std::vector<int> last(64, -1);
        struct Ev { int rec, t; std::vector<int> rd, wr; };
        std::vector<Ev> evs;
        using Hist = std::map<int, int>; // event -> 1 read, 2 write, 3 both
        std::map<std::pair<uint32_t, uint64_t>, Hist> bytes;
        for (size_t i = 0; i < recs.size(); i++) {
            auto &r = recs[i];
            if (r.kind <= 3) {
                if (r.kind < 3 && users[{r.block, r.off}].size() < 2) continue;
                evs.push_back({(int)i, r.t, {}, {}});
                last[r.t] = (int)evs.size() - 1;
            } else {
                if (last[r.t] < 0) { evs.push_back({-1, r.t, {}, {}}); last[r.t] = (int)evs.size() - 1; }
                for (uint32_t b = 0; b < r.size; b++) bytes[{r.block, r.off + b}][last[r.t]] |= r.kind == 5 ? 2 : 1;
            }
        }
        std::map<Hist, std::pair<int, std::string>> groups;
        for (auto &b : bytes) {
            int t = -1;
            bool two = false, wr = false;
            for (auto &h : b.second) {
                int x = evs[h.first].t;
                if (t >= 0 && x != t) two = true;
                t = x;
                if (h.second & 2) wr = true;
            }
            if (!two || !wr) continue;
            auto it = groups.find(b.second);
            if (it == groups.end()) it = groups.emplace(b.second, std::make_pair((int)groups.size(), "block " + std::to_string(b.first.first) + " offset " + std::to_string(b.first.second))).first;
        }
        for (auto &g : groups)
            for (auto &h : g.first) {
                if (h.second & 1) evs[h.first].rd.push_back(g.second.first);
                if (h.second & 2) evs[h.first].wr.push_back(g.second.first);
            }
        std::map<std::pair<uint32_t, uint64_t>, int> ids;
        for (auto &e : evs) {
            if (e.rec >= 0) {
                auto &r = recs[e.rec];
                static const char *ks[] = {"ld", "st", "rmw", "fence"};
                int a = 0;
                if (r.kind < 3) a = ids.emplace(std::make_pair(r.block, r.off), (int)ids.size() + 1).first->second;
                Log(std::string("{\"k\":\"") + ks[r.kind] + "\",\"t\":" + std::to_string(r.t + 1) + ",\"a\":" + std::to_string(a) + ",\"m\":\"" + Mo((std::memory_order)r.mo) + "\"}");
            }
            if (e.rd.size() || e.wr.size()) {
                std::sort(e.rd.begin(), e.rd.end());
                std::sort(e.wr.begin(), e.wr.end());
                auto arr = [](const std::vector<int> &v) { std::string s = "["; for (int x : v) { if (s.size() > 1) s += ","; s += std::to_string(x); } return s + "]"; };
                Log("{\"k\":\"d\",\"t\":" + std::to_string(e.t + 1) + ",\"r\":" + arr(e.rd) + ",\"w\":" + arr(e.wr) + "}");
            }
        }
        recs.clear();
    }

    bool SpuriousFail() {
        if (tid < 0 || !strat.spurious || rng.Below(100) >= (uint32_t)strat.spurious) return false;
        ths[tid]->modSeen = 0; // the next attempt may succeed although nothing changes
        ths[tid]->nonMod = 0;
        return true;
    }

    static void Resume(int t) {
        running = t;
        if (t < 0) mainSem.Post(); else ths[t]->sem.Post();
    }

    static int PickOther(int self) {
        // choose among runnable threads other than `self`
        int n = 0, c[64];
        for (size_t i = 0; i < ths.size(); i++) if ((int)i != self && ths[i]->st == Run) c[n++] = (int)i;
        if (!n) return -1;
        if (strat.kind == Strategy::Pct) {
            int best = c[0];
            for (int i = 1; i < n; i++) if (ths[c[i]]->prio > ths[best]->prio) best = c[i];
            return best;
        }
        if (strat.kind == Strategy::List) return c[0];
        return c[rng.Below(n)];
    }

    static void SwitchTo(int self, int t) {
        if (t == self) return;
        Resume(t);
        ths[self]->sem.Wait();
    }

    [[noreturn]] static void Abandon(const char *why) {
        logbuf += std::string("{\"k\":\"") + why + "\"}\n";
        FlushLog();
        _exit(3);
    }

    // The running thread cannot go on: give the baton away.
    static void Yielded(int self) {
        int t = PickOther(self);
        SwitchTo(self, t); // t == -1: quiescent, back to the controller
    }

    void Point() {
        int self = tid;
        if (self < 0) return;
        Th &me = *ths[self];
        step++;
        progress++;
        if (step > strat.maxSteps) Abandon("stuck");
        if (++me.nonMod > 400) { SpinHint(); me.nonMod = 300; return; }
        int to = -1;
        // A run this long may be threads that keep getting in each other's way, which is bound to end only if now and then one
        // of them goes on for long enough: from here on all of them do.  What cannot go on does not go on that way either.
        if (strat.kind != Strategy::Seq && step > strat.calm) {
            if (rng.Below(4000) == 0) to = PickOther(self);
            if (to >= 0) SwitchTo(self, to);
            return;
        }
        switch (strat.kind) {
        case Strategy::Seq: return;
        case Strategy::Random:
            if (rng.Below(1000) < strat.p) to = PickOther(self);
            break;
        case Strategy::Pct:
            for (auto c : changeAt) if (c == step) { me.prio = --lowPrio; }
            to = PickOther(self);
            if (to >= 0 && ths[to]->prio < me.prio) to = -1;
            break;
        case Strategy::List:
            for (auto &c : strat.list) if (c.first == step && c.second != self && c.second < (int)ths.size() && ths[c.second]->st == Run) to = c.second;
            break;
        }
        if (to >= 0) SwitchTo(self, to);
    }
    void Modified() {
        int self = tid;
        if (self < 0) return;
        modCount++;
        for (auto &t : ths) { t->nonMod = 0; if (t->st == Spin) t->st = Run; }
    }
    void BlockOn(const void *addr) {
        int self = tid;
        if (self < 0) { fprintf(stderr, "uncontrolled thread blocks\n"); abort(); }
        Th &me = *ths[self];
        me.st = Block;
        me.addr = addr;
        me.nonMod = 0;
        Yielded(self);
    }
    void Notify(const void *addr, bool all) {
        int n = 0, one = 0; // which one of several is woken is up to nobody
        if (!all) {
            for (auto &t : ths) n += t->st == Block && t->addr == addr;
            if (n > 1) one = (int)rng.Below(n);
        }
        for (auto &t : ths) if (t->st == Block && t->addr == addr && (all || one-- == 0)) {
            t->st = Run;
            t->addr = nullptr;
        }
    }
    void SpinHint() {
        int self = tid;
        if (self < 0) { return; }
        Th &me = *ths[self];
        step++;
        if (step > strat.maxSteps) Abandon("stuck");
        if (me.modSeen != modCount) {
            me.modSeen = modCount;
            int t = PickOther(self);
            if (strat.kind == Strategy::Pct) me.prio = --lowPrio;
            if (t >= 0) SwitchTo(self, t);
        } else {
            me.st = Spin;
            Yielded(self);
        }
    }

    void Pause() { // let somebody else run if anybody can
        int self = tid;
        if (self < 0) return;
        int t = PickOther(self);
        if (strat.kind == Strategy::Pct) ths[self]->prio = --lowPrio;
        if (t >= 0) SwitchTo(self, t);
    }

    static void Body(int id) {
        tid = id;
        Th &me = *ths[id];
        me.sem.Wait();
        while (!me.quit) {
            while (!me.q.empty()) {
                auto f = std::move(me.q.front());
                me.q.pop_front();
                f();
                if (!me.q.empty()) Point();
            }
            me.st = Idle;
            int t = PickOther(id);
            Resume(t);
            me.sem.Wait();
        }
    }

    void SetThreads(int n) {
        if ((int)ths.size() > n) StopThreads(); // a program's schedules do not depend on the programs before it
        ths.reserve(64); // threads look themselves up while others are added
        while ((int)ths.size() < n) {
            ths.push_back(std::make_unique<Th>());
            int id = (int)ths.size() - 1;
            ths[id]->th = std::thread(Body, id);
        }
    }
    std::thread::id ThreadId(int t) { return ths[t]->th.get_id(); }
    int ThreadCount() { return (int)ths.size(); }
    void StopThreads() {
        for (auto &t : ths) { t->quit = true; t->sem.Post(); t->th.join(); }
        ths.clear();
    }
    bool Busy(int t) { return ths[t]->st != Idle; }
    void Push(int t, std::function<void()> f) { ths[t]->q.push_back(std::move(f)); ths[t]->st = ths[t]->st == Idle ? Run : ths[t]->st; }
    void SetStrategy(const Strategy &s, uint64_t seed) {
        strat = s;
        rng.Seed(seed);
        step = 0;
        lowPrio = 0;
        changeAt.clear();
        if (s.kind == Strategy::Pct) {
            std::vector<int> order;
            for (size_t i = 0; i < ths.size(); i++) order.push_back((int)i);
            for (size_t i = order.size(); i > 1; i--) std::swap(order[i - 1], order[rng.Below((uint32_t)i)]);
            for (size_t i = 0; i < order.size(); i++) ths[order[i]]->prio = 1000 + (int)i;
            for (int i = 0; i < s.depth; i++) changeAt.push_back(1 + rng.Below(s.horizon));
        }
    }
    uint64_t Steps() { return step; }
    void RunUntilQuiet(int first) {
        step = 0;
        for (auto &t : ths) t->nonMod = 0;
        int t = first;
        if (t < 0 || ths[t]->st != Run) t = PickOther(-1);
        if (t < 0) return;
        Resume(t);
        mainSem.Wait();
        running = -1;
    }

    // ---- output ------------------------------------------------------------------------------------------------
    void FlushLog() {
        size_t o = 0;
        while (o < logbuf.size()) {
            ssize_t n = write(logFd, logbuf.data() + o, logbuf.size() - o);
            if (n <= 0) break;
            o += n;
        }
        logbuf.clear();
    }
    static void OnSignal(int sig) {
        static volatile sig_atomic_t once = 0;
        if (once) _exit(4);
        once = 1;
        size_t o = 0;
        while (o < logbuf.size()) {
            ssize_t n = write(logFd, logbuf.data() + o, logbuf.size() - o);
            if (n <= 0) break;
            o += n;
        }
        char b[80];
        int n = snprintf(b, sizeof b, "{\"k\":\"%s\",\"sig\":%d}\n", sig == SIGALRM ? "hang" : "crash", sig);
        if (write(logFd, b, n) < 0) {}
        _exit(4);
    }
    void InstallHandlers() {
        static char alt[65536];
        stack_t ss{};
        ss.ss_sp = alt;
        ss.ss_size = sizeof alt;
        sigaltstack(&ss, nullptr);
        for (int s : {SIGSEGV, SIGABRT, SIGBUS, SIGFPE, SIGILL, SIGALRM}) {
            struct sigaction sa{};
            sa.sa_handler = OnSignal;
            sa.sa_flags = SA_ONSTACK;
            sigaction(s, &sa, nullptr);
        }
    }
    void Watchdog(int sec) { alarm(sec); }
} // namespace vf

#ifdef VF_CLOCK
// Replaces the library's clock: reading it takes time, and is a scheduling point.
namespace std::chrono {
    steady_clock::time_point steady_clock::now() noexcept {
        vf::Point();
        return time_point(duration((rep)vf::Now()));
    }
}
#endif
