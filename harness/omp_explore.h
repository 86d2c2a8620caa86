// Controlled OpenMP runtime: teams run as coroutines, every synchronization operation is a scheduling point,
// every memory access made inside a parallel region is checked for data races by happens-before.
#pragma once
#include <functional>
#include <string>
struct OmpStats { long schedules = 0, choices = 0, regions = 0, accesses = 0, syncs = 0, maxsync = 0; bool cut = false; };
bool omp_explorer_present();
void omp_team(int n);                       // team size of the following parallel regions (1: plain call)
// all schedules of body, with at most `preempt` preemptions each (-1: no bound), at most `cap` schedules
OmpStats omp_explore_all(int team, int preempt, long cap, const std::function<bool()> &body);
void omp_run_begin(int team);               // one schedule of an enclosing exploration: use inside body around the call under test
void omp_run_end();
extern std::string omp_problem;             // data race or deadlock found in the current schedule ("" if none)
std::string omp_schedule();                 // the current schedule, printable
void omp_regions(int &reached, int &total); // distinct outlined regions executed / present in the binary
