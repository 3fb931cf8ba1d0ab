// seq - explicit-state explorer for sequential histories of the real code.
// A group is a function that takes nondeterministic choices; every choice sequence is executed
// (depth first, by re-execution) and checked by the group against its reference model.
#pragma once
#include <cstddef>
#include <cstdint>
#include <functional>
#include <string>
#include <vector>

namespace seq {

struct Group
{
    std::string name;
    std::function<void()> run;             // one execution
    std::function<void()> setup = nullptr; // once, before the executions
    bool isolated = false;                 // every execution in a process of its own
    bool leaks = false;                    // memory is balanced after each execution
    bool thoroughOnly = false;
    int split = 2;                         // number of leading choices that are distributed over workers
};

bool thorough();
int choose(int n);                         // 0..n-1, every value is explored
void step();                               // one operation (transition) was executed
void state(std::uint64_t hash);            // model state reached
void state(std::string const &text);
void note(char const *fmt, ...) __attribute__((format(printf, 1, 2)));
[[noreturn]] void fail(std::string const &message);
// true: the violation is a listed finding (it is counted), false: it is not listed
bool known(char const *key);
inline void check(bool ok, char const *what) { if (!ok) fail(what); }
#define SEQ_STR2(X) #X
#define SEQ_STR(X) SEQ_STR2(X)
#define CHECK(...) ::seq::check(bool(__VA_ARGS__), #__VA_ARGS__ " [" SEQ_STR(__LINE__) "]")
#define CHECK_MSG(COND, MSG) do { if (!(COND)) ::seq::fail(std::string(#COND " [" SEQ_STR(__LINE__) "] ") + (MSG)); } while (false)

// ---- fault injection: while armed, every allocation and every fault point may fail (a choice)
struct Injected {};                        // thrown by fault points
void arm(int budget);                      // up to `budget` faults from now on
void disarm();
bool injected();                           // did a fault happen since arm()
void fault_point(char const *what);        // throws Injected
struct NoFaults { NoFaults(); ~NoFaults(); private: int saved; };

// ---- memory obtained by operator new and not yet given back
long live_blocks();
long live_bytes();

int main_(int argc, char **argv, std::vector<Group> groups);

} // namespace seq
