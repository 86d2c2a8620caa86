"""Which machinery decides which property."""
import bmlbuild as B

SEQ_ASSUME = ["values come from a small fixed alphabet of exactly representable numbers", "one thread (C20 covers schedules)",
              "gcc -O1 with AddressSanitizer, library OpenBLAS 32-bit integer interface"]


def seq_cov(T, C, D):
    return dict(states=int(T["states"]), transitions=int(T["transitions"]), traces_validated_against_impl=int(T["cases"]),
                distinct_nontrivial=int(T["nontrivial"]), configurations=int(T["groups"]),
                rule="states: distinct concrete storage layouts (per configuration) from which an operation was executed; transitions: operations "
                     "executed on the real library and compared with exact reference arithmetic; traces: complete cases (build, operate, observe, "
                     "release) run on the implementation; non-trivial: the operation had something to compute")


def omp_cov(T, C, D):
    import subprocess
    exe = B.build_omp()
    names = {}
    for l in subprocess.run(["nm", exe], stdout=subprocess.PIPE, text=True).stdout.splitlines():
        f = l.split()
        if len(f) == 3 and "_omp_fn" in f[2]:
            names[f[0].lstrip("0")] = f[2]
    hit = {names[n] for n in D.get("_notes", ()) if n in names}
    return dict(states=int(D.get("scheduling_decisions", 0)), transitions=int(D.get("synchronization_points", 0)), schedules=int(D.get("schedules", 0)),
                traces_validated_against_impl=int(D.get("schedules", 0)), programs=int(T["cases"]), distinct_nontrivial=int(T["nontrivial"]),
                configurations=int(T["groups"]), parallel_regions_run=int(D.get("parallel_regions_run", 0)),
                memory_accesses_checked=int(D.get("memory_accesses_checked", 0)), bounds={k: v for k, v in D.items() if k.startswith("programs_")},
                outlined_regions_reached=len(hit), outlined_regions_in_binary=len(set(names.values())), regions_not_reached=sorted(set(names.values()) - hit)[:60],
                rule="a program is one public operation on one concrete operand pair with a given team size; every schedule of its parallel regions with at most "
                     "the completed number of preemptions (bounds: programs by completed bound) at synchronization operations is executed on the real code (depth-first over the choice tree); every memory "
                     "access in a region is checked for happens-before races; states: scheduling decisions, transitions: synchronization operations executed")


def mpi_cov(T, C, D):
    g = lambda k: int(D.get(k, 0))
    return dict(states=g("schedule_choices") + g("schedules"), transitions=g("mpi_calls"), schedules=g("schedules"), traces_validated_against_impl=g("schedules"),
                programs=int(T["cases"]), distinct_nontrivial=int(T["nontrivial"]), configurations=int(T["groups"]), messages=g("messages"), collectives=g("collectives"),
                bounds={k: v for k, v in D.items() if k.startswith("explorations_")},
                rule="a program is one multi-rank use of the library on concrete matrices; the real library runs in every rank, all ranks scheduled by a controlled MPI that explores, per "
                     "base mode (eager or synchronous sends, early or late delivery into receive buffers, early or late reading of send buffers, rank order), every schedule with at most "
                     "the stated number of deviations; bounds: explorations completed per deviation bound (or cut by the cap); states: scheduling decisions and "
                     "schedules, transitions: MPI calls executed; every schedule's results are compared on every rank with exact reference arithmetic")


def fault_cov(T, C, D):
    g = lambda k: int(D.get(k, 0))
    return dict(states=g("faults"), transitions=int(T["transitions"]), traces_validated_against_impl=int(T["cases"]), programs=int(T["cases"]), distinct_nontrivial=int(T["nontrivial"]),
                configurations=int(T["groups"]), faults=g("faults"), ended_in_reported_error=g("reported"), ended_as_without_fault=g("survived"),
                rule="a program is one multi-rank use of the library in which exactly one allocation made by one rank fails (every allocation of ranks 0, 1 and the last in turn, each in a "
                     "process of its own under a controlled MPI, alternating between buffered and synchronous message timing); states: fault points, transitions: executions; accepted: an error "
                     "is reported, or every rank finishes with the exact result of the run without a fault")


def get(prop, tier):
    quick = tier == "quick"
    if prop == "C20":
        return dict(build=lambda: B.build_omp(None), level="model_checking", budget=150 if quick else 780, coverage=omp_cov,
                    assumptions=["teams of 2 and 3 threads (4 in the thorough tier)", "sequentially consistent interleavings at synchronization operations; races are "
                                 "found by happens-before within each region, so unsynchronized accesses are reported whatever their order",
                                 "gcc -O1, library OpenBLAS; BLAS calls inside regions are modelled by their documented operand footprints"])
    if prop in ("C21", "C22", "C23", "C31"):
        return dict(build=lambda: B.build_mpi(None), level="model_checking", budget=240 if quick else 780, coverage=fault_cov if prop == "C31" else mpi_cov,
                    assumptions=["1, 4 and (small, full in the thorough tier) 9 ranks, one thread per rank", "the controlled MPI implements the MPI calls the library uses, with the "
                                 "standard's freedom in buffering, delivery time and progress; ScaLAPACK diagonalization is outside the explorer", "values come from a small fixed "
                                 "alphabet of exactly representable numbers", "gcc -O1 with AddressSanitizer"])
    if prop == "C27":
        return dict(build=lambda: B.build_fort(None), level="model_checking", budget=150 if quick else 780, coverage=seq_cov,
                    assumptions=["values come from a small fixed alphabet of exactly representable numbers", "one thread", "gfortran and gcc -O1 with AddressSanitizer; stop "
                                 "statements and LOG_ERROR are intercepted as refusals"])
    return dict(build=lambda: B.build_seq(None), level="model_checking", budget=150 if quick else 780, coverage=seq_cov, assumptions=SEQ_ASSUME)
