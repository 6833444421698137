// Memory under the harness's control: what malloc hands out is filled with a chosen byte, and what is live is counted.
#pragma once
#include <cstddef>
#include <cstdint>
namespace memrt {
extern long liveBlocks, liveBytes;      // everything malloc, calloc, realloc and friends have handed out and not got back
void paint(int byte);                   // fill new and freed memory, and the stack below the caller, with this byte; -1: leave alone
void leaveBlock();                      // (self test) a block that is never freed

// What the system answers to reads and writes of files (descriptors from 3 on) while armed.
enum Fault { NOFAULT, FAIL_FROM, FAIL_ONCE, SHORT_ONCE, INTR_ONCE, SHORT_ALL, ROOM };
struct Io { long reads = 0, writes = 0, bytes = 0, failed = 0; };   // calls seen, bytes written, errors returned
void arm(bool reads, Fault f, long at); // the at-th call (from 0); ROOM: at bytes fit
Io disarm();

// Allocations while starved: the at-th one (from 0), or all from then on, get nothing.
struct Starved { long asked = 0, refused = 0; };
void starve(long at, bool from);
Starved feed();
Starved lastStarved();
struct Pause { bool was; Pause(); ~Pause(); };          // allocations in between are neither counted nor refused
}
