// Controlled execution of real threads: interface of the runtime in schedrt.cpp.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace rt {
struct Point { unsigned char chosen, nEnabled, runningEnabled, kind; };
struct Trace {                       // lives in memory shared with the explorer
    volatile uint32_t n;             // number of decisions taken
    volatile uint32_t ops;           // scheduling points passed (also those with one enabled thread)
    volatile uint32_t accesses, races;
    volatile uint32_t finished;      // 1: all threads ran to their end
    char msg[1500];                  // first violation seen by the runtime
    Point p[60000];
};
// Runs the bodies as threads under the scheduler, following `choices` (0 afterwards).
void run(const std::vector<std::function<void()>>& bodies, const std::vector<uint8_t>& choices, Trace* t);
void report(const char* fmt, ...);   // records a violation (first one wins)
int self();                          // thread number, -1 outside
void point(const char* what);        // an explicit scheduling point
void ignore(int delta);            // +1/-1: the calling thread's own bookkeeping is neither a scheduling point nor checked
// heap
void quarantine(bool on);            // while on, freed blocks are never reused
bool isFreed(const void* p);         // the block starting at or holding p was freed
std::string where(uintptr_t pc);
}
