// Controlled scheduling of the real threads of the implementation (see sched.cpp).
#pragma once
#include "mc.hpp"
namespace sched {
struct options
{
    int preemptions = 2;          // switches away from a thread that could go on
    int spurious = 0;             // condition variables that wake up without reason
    unsigned max_steps = 20000;   // scheduling points in one execution
    bool races = true;            // report unsynchronised accesses
    bool any_start = true;        // whether a new thread starts at once is open without counting as a preemption
    int order = 0;                // who goes on when a thread cannot, or must not, go on: 0: every possibility, 1: the first thread, 2: the last thread
    int processors = 2;           // what the operating system reports
};
// runs body as thread 0 with every thread it creates under control; each decision is c.choose()
void run(mc::ctx &c, const options &o, const std::function<void()> &body);
int self();                       // number of the running thread, in order of creation
unsigned clock();                 // scheduling points passed
void fail(const std::string &key, const std::string &msg);   // from any thread; does not return unless the finding is known
void order(int o);            // changes options::order from here on
void point(const char *what);     // an additional scheduling point
// accesses of the harness itself are not checked for races
struct quiet { quiet(); ~quiet(); };
}
#define SCHED_CHECK(c, cond, key, ...) do { sched::quiet sq_; ++(c).checks; if(!(cond)) { sched::fail(key, MC_STR(__VA_ARGS__ << "  [" #cond "]")); } } while(0)
#define SCHED_LOG(c, ...) do { sched::quiet sq_; if((c).verbose) { (c).log_ << "[" << sched::self() << "] " << __VA_ARGS__ << '\n'; } } while(0)
