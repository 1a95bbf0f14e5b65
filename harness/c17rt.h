#pragma once
// Controlled scheduler and happens-before race detector below code compiled with -fsanitize=thread.
#include <cstdint>
#include <string>
#include <vector>
namespace rt {
enum { MAXT = 3 };
typedef void (*Body)(void *);
struct Outcome {
    int points = 0;              // schedule points passed
    bool blockedOnly = false;
    std::string race, deadlock;  // descriptions; empty if none
    uint64_t accesses = 0, words = 0, syncs = 0;
    std::vector<int> pointThread; // thread that was running at each point
};
// run n bodies on n threads, one at a time; thread `first` starts; at schedule point number preempt[k] the running thread is
// preempted in favour of the next one in cyclic order (skip more of them with to[k]); at the end of a thread the next runs
Outcome run(int n, Body *bodies, void **args, int first, const std::vector<std::pair<int, int>> &preempt);
void *base(); // load address of the program
}
