// Deterministic execution of a multi-threaded program on one real thread, with a
// simulated kernel (futexes, timers, clocks, allocation failures).
#ifndef SIM_H
#define SIM_H
#include <cstddef>
#include <cstdint>
typedef __int128 i128;
int sim_spawn(void (*f)(int, void*), void* arg);      // before sim_run
void sim_begin(std::uint64_t seed);                   // resets the scheduler
void sim_run();                                       // runs all threads to the end
std::uint64_t sim_rnd(std::uint64_t n);               // scenario choices
void sim_bad(const char* fmt, ...);                   // reports a violation and ends
i128 sim_mono(); i128 sim_real();
void sim_yield();
void sim_sleep(i128 ns);
void sim_deadline(int clk, i128 t);                   // the running thread may not sleep beyond it (0 mono, 1 real)
void sim_nodeadline();
void sim_note(const char* fmt, ...);                  // one line of the history
int sim_self();
void* sim_raw(std::size_t n);                         // memory for the scenario's own use
std::size_t sim_live_blocks();
int sim_atexit_count();
void (*sim_atexit_fn())();
struct SimOpt { bool oom, spurious, timejump; int slack_ms; };
extern SimOpt sim_opt;
#endif
