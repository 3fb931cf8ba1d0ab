// rmc - stateless model checker for the real, compiler-instrumented library code.
// Every scenario is run under all thread interleavings up to a preemption bound.
#pragma once
#include <functional>
#include <string>
#include <vector>

namespace rmc {

constexpr int Unbounded = 250; // all schedules

struct Scenario
{
    std::string name;
    std::function<void()> setup;                 // runs once, single threaded, before the executions
    std::vector<std::function<void()>> threads;  // run concurrently, every schedule
    std::function<void()> final;                 // runs after all threads have finished
    int quickBound = Unbounded;                  // preemption bounds
    int thoroughBound = Unbounded;
};

// Report a violation in the current execution and end it.
[[noreturn]] void fail(std::string const &message);
inline void check(bool ok, char const *what) { if (!ok) fail(what); }
#define RMC_CHECK(COND) ::rmc::check((COND), #COND)

int thread();           // index of the calling thread (-1: none)
unsigned stamp();       // strictly increasing logical time (number of scheduling steps)
void note(std::string const &text);     // printed in the replay log
void outcome(std::string const &text);  // distinct outcomes are counted and reported
void point();           // explicit scheduling point (for user callbacks)

int main_(int argc, char **argv, std::vector<Scenario> scenarios);

} // namespace rmc
