// Controlled MPI implementation: ranks are coroutines, each running its own copy of the library; every MPI call is a
// scheduling point; message protocol (eager or synchronous, early or late delivery) and rank order are chosen by the explorer.
#pragma once
#include <functional>
#include <string>
#include <vector>
struct MpiStats { long schedules = 0, choices = 0, calls = 0, messages = 0, collectives = 0, maxcalls = 0; bool cut = false; };
enum { MODE_SYNC = 1, MODE_LATE_RECV = 2, MODE_LATE_SEND = 4, MODE_DESC = 8, NMODES = 16 };
// run body(rank) on n ranks, under every schedule with at most `dev` deviations from the base mode; after each schedule done() is called
MpiStats mpi_explore(int n, int mode, int dev, long cap, const std::function<void(int)> &body, const std::function<bool()> &done);
extern std::string mpi_problem;   // error of the current schedule: deadlock, mismatch, truncation, leak ("" if none)
std::string mpi_schedule();
struct MpiRes { int comms, types, reqs; };
MpiRes mpi_resources(int rank);   // resources the rank holds
extern "C" void mc_leave(void);   // the current rank stops here and the whole job with it (error exit)
