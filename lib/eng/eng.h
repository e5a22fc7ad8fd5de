// Controlled scheduler with explicit-state search over the real memory of the program under test.
#pragma once
#include <cstddef>
#include <cstdint>
extern "C" {
typedef bool (*eng_pred)(void *);
// runs "entry(rank)" for all ranks, explores from the point where all ranks called eng_begin() (directly or armed)
int  eng_run(int argc, char **argv, const char *name, int nRanks, int nThreads, void (*entry)(int), void (*final_check)());
void eng_arm();                       // exploration begins at this rank's next parallel region
void eng_begin();                     // exploration begins here
bool eng_exploring();
int  eng_choose(int n, const char *what);       // nondeterministic choice
int  eng_choose_if(eng_pred p, void *arg, const char *what, int freeDefer);   // choice 0 only if p holds; choice 1 although p holds counts as preemption unless freeDefer
void eng_wait(eng_pred p, void *arg, const char *what);   // blocks until the predicate holds (scheduling point)
void eng_point(const char *what);     // explicit scheduling point
[[noreturn]] void eng_fail(const char *fmt, ...) __attribute__((format(printf, 1, 2)));
void eng_event(const char *fmt, ...) __attribute__((format(printf, 1, 2)));   // shown in replays
int  eng_rank();
int  eng_thread();
void eng_args(int argc, char **argv);   // makes eng_opt available before eng_run
void *eng_shared(size_t n);           // memory shared by all ranks, part of the state
const char *eng_opt(const char *key, const char *dflt);   // command line --key=value
void eng_obs(uint64_t v);             // adds to the set of distinct observations
void eng_private(const void *p, size_t n);   // no race detection for this memory (ghost state)
}
