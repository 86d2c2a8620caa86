CLAIMED = ["C%02d" % i for i in range(1, 32)]
SPECIAL["C20"] = dict(
    technique="stateless exploration of OpenMP thread schedules of the real code (preemption bounding, controlled runtime) with happens-before race checking in every schedule",
    level="model_checking",
    note="The library's outlined parallel regions run on coroutine threads under a controlled OpenMP runtime; all schedules up to the completed preemption bound are executed "
         "and compared with the one-thread result; every memory access is checked for happens-before races. Trusts gcc's TSan instrumentation and the BLAS footprint model.")
for _p in ("C21", "C22", "C23"):
    SPECIAL[_p] = dict(
        technique="stateless exploration of MPI schedules of the real code (one library copy per rank on coroutines under a controlled MPI; delay-bounded message and rank orders)",
        level="model_checking",
        note="Every program runs under all listed base modes (buffered/synchronous sends, early/late delivery, rank order) and, for the schedule groups, all schedules up to the stated "
             "number of deviations; results on every rank are compared with exact reference arithmetic; deadlock, unmatched, truncated or mistyped messages, unbalanced collectives, leaks, "
             "memory errors are violations. Trusts the controlled MPI and exact reference arithmetic.")
SPECIAL["C27"] = dict(
    technique="bounded exhaustive enumeration of operand states through both language interfaces (differential: each Fortran procedure against the C operation on bit-identical operands)",
    level="model_checking",
    note="Every public Fortran procedure, with every combination of optional arguments and array forms used, is executed on all bounded operands and compared with the C operation on "
         "identically built operands: results, numbers, printed text, files, errors and live memory. The C operations are judged by the other properties.")
SPECIAL["C29"] = dict(
    technique="exhaustive single-fault injection: every allocation made by every operation of the real code fails in turn, each in its own process",
    level="model_checking",
    note="For every operation, configuration and operand pair of the alphabet the allocations of the fault-free run are counted, and each is made to fail once (malloc, calloc, realloc, "
         "posix_memalign). Accepted: a reported error, or success with the fault-free result. Trusts the link-time allocation wrappers and ASan for invalid accesses.")
SPECIAL["C31"] = dict(
    technique="exhaustive single-fault injection in multi-rank programs of the real code under a controlled MPI: every allocation of a chosen rank fails in turn, each in its own process",
    level="model_checking",
    note="For every program of the alphabets of C21-C23 (one operand set each in quick) the allocations of ranks 0, 1 and the last are counted in the fault-free run, and each is made to fail once. "
         "Accepted: a reported error on that rank, or fault-free results on every rank. Trusts the allocation wrappers, the controlled MPI and ASan.")
