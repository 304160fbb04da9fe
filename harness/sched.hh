#pragma once
#include "vf.hh"
namespace vf {
    struct Strategy {
        enum Kind { Seq, Random, Pct, List } kind = Seq;
        uint32_t p = 0;          // Random: switch probability per mille
        int depth = 0;           // Pct: number of priority change points
        uint32_t horizon = 1;    // Pct: steps over which they are spread
        int spurious = 0;        // % of spurious compare_exchange_weak failures
        uint64_t maxSteps = 400000;
        uint64_t calm = 60000;
        std::vector<std::pair<uint64_t, int>> list; // List: preempt at step -> thread
    };
    extern bool hbMode, dataPoints;
    extern std::string logbuf;
    extern int logFd;
    void Log(const std::string &line);
    void ResetLog();
    void TrackBlock(const void *p, size_t n);
    void UntrackBlock(const void *p);
    void RecData(const void *addr, size_t size, bool write);
    void RecAtomic(const void *addr, int kind, std::memory_order mo);
    void StartRecording();
    void EndRecording();
    void FlushLog();
    void SetThreads(int n);
    int ThreadCount();
    std::thread::id ThreadId(int t);
    void StopThreads();
    bool Busy(int t);
    void Push(int t, std::function<void()> f);
    void SetStrategy(const Strategy &s, uint64_t seed);
    uint64_t Steps();
    void RunUntilQuiet(int first = -1);
    void InstallHandlers();
    void Watchdog(int sec);
}
