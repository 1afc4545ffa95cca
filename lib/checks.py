"""Which harness decides which property."""

ALLOC = dict(exe="h_alloc", harness=["h_alloc.cpp"], ldflags=["-Wl,--wrap=backtrace"], cflags=["-DMC_NO_BACKTRACE"])
SEQ_ASSUME = ["single-threaded use", "the host part of the library, compiled with NDEBUG against a stand-in for camp",
              "data outside the listed sizes, alignments and stacks is not covered"]

CHECKS = {}
for p in ("P01", "P02", "P04", "P05", "P06", "P07", "P08", "P09", "P27"):
    CHECKS[p] = dict(runs=[dict(ALLOC)], assumptions=list(SEQ_ASSUME))

MAP = dict(exe="h_map", harness=["h_map.cpp"], lib="util", ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=free"],
           cflags=["-fno-builtin-malloc", "-fno-builtin-free"])
for p in ("P15", "P16", "P17"):
    CHECKS[p] = dict(runs=[dict(MAP)], assumptions=["single-threaded use", "memory for the containers themselves is available",
                                                  "addresses are non-null and records do not wrap around the address space"])

REG = dict(exe="h_registry", harness=["h_registry.cpp"], ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=realloc", "-Wl,--wrap=backtrace"],
           cflags=["-fno-builtin-malloc", "-fno-builtin-realloc", "-DMC_NO_BACKTRACE"])
for p in ("P03", "P10", "P11", "P12", "P13", "P14", "P26"):
    CHECKS[p] = dict(runs=[dict(REG)], assumptions=list(SEQ_ASSUME))

for p in ("P02", "P27"):
    CHECKS[p]["runs"].append(dict(REG))

FILE = dict(exe="h_file", harness=["h_file.cpp"],
            ldflags=["-Wl,--wrap=" + w for w in ("open", "open64", "creat", "ftruncate", "ftruncate64", "fallocate",
                                                 "posix_fallocate", "mmap", "mmap64", "backtrace")],
            cflags=["-DMC_NO_BACKTRACE", "-U_FORTIFY_SOURCE"])
CHECKS["P04"]["runs"].append(dict(FILE))
CHECKS["P20"] = dict(runs=[dict(FILE)], assumptions=["single-threaded use (concurrent use is part of P18)",
                                                    "removing a file or a mapping does not itself fail",
                                                    "the file resource without UMAP"])

WRAPS = ["pthread_mutex_lock", "pthread_mutex_trylock", "pthread_mutex_unlock",
         "pthread_rwlock_rdlock", "pthread_rwlock_wrlock", "pthread_rwlock_tryrdlock", "pthread_rwlock_trywrlock",
         "pthread_rwlock_unlock", "sched_yield", "backtrace"]
CONC = dict(exe="h_conc", harness=["h_conc.cpp", "sched.cpp"], variant="sched", nosan=["sched.cpp"],
            ldflags=["-Wl,--wrap=" + w for w in WRAPS] + ["-rdynamic"])
for p in ("P18", "P19"):
    CHECKS[p] = dict(runs=[dict(CONC)], technique="stateless model checking of the real code: all schedules up to a preemption bound "
                     "under a controlled scheduler, with happens-before race detection and a sequential reference",
                     assumptions=["sequentially consistent interleavings plus happens-before race detection (no weak-memory reordering)",
                                  "preemptions only before locks and atomic operations, which is exhaustive for race-free executions",
                                  "libc and libstdc++ are not instrumented"])

SHM_WRAPS = ["shm_open", "shm_unlink", "ftruncate", "ftruncate64", "fstat", "mmap", "munmap", "close", "pthread_mutex_init",
             "pthread_mutexattr_init", "pthread_mutexattr_setpshared"]
SHMSEQ = dict(exe="h_shmseq", harness=["h_shm.cpp"], cflags=["-DSHM_SEQ", "-DMC_NO_BACKTRACE"],
              ldflags=["-Wl,--wrap=" + w for w in SHM_WRAPS + ["backtrace"]])
CHECKS["P21"] = dict(runs=[dict(SHMSEQ)], assumptions=["names without embedded null characters",
                                                      "shm_open and shm_unlink work on a table of anonymous memory files",
                                                      "the attachments are objects of one process, each with a mapping of its own"])
SHM = dict(exe="h_shm", harness=["h_shm.cpp", "sched.cpp"], variant="sched", nosan=["sched.cpp"],
           ldflags=["-Wl,--wrap=" + w for w in WRAPS + SHM_WRAPS] + ["-rdynamic"])
CHECKS["P22"] = dict(runs=[dict(SHM)], technique=CHECKS["P18"]["technique"],
                     assumptions=["sequentially consistent interleavings plus happens-before race detection (no weak-memory reordering)",
                                  "processes are threads with separate attachments; no process dies while it creates the segment",
                                  "a process detaches (which removes the name) while another one attaches only where two processes do so by themselves",
                                  "shm_open and shm_unlink work on a table of anonymous memory files"])

CHECKS["P24"] = dict(runs=[dict(exe="h_io", harness=["h_io.cpp"], lib="util", cflags=["-DMC_NO_BACKTRACE"], ldflags=["-Wl,--wrap=backtrace"])],
                     assumptions=["single-threaded use", "the output directory exists", "no other process creates files of the same series at the same time"])

CAPI = dict(exe="h_capi", harness=["h_capi.cpp"],
            ldflags=["-Wl,--wrap=malloc", "-Wl,--wrap=free", "-Wl,--wrap=realloc", "-Wl,--wrap=backtrace"],
            cflags=["-fno-builtin-malloc", "-fno-builtin-free", "-fno-builtin-realloc", "-DMC_NO_BACKTRACE"])
CHECKS["P25"] = dict(runs=[dict(CAPI)], assumptions=["single-threaded use", "errors are compared as errors, not by their text",
                                                    "the Fortran wrappers, which call the functions taking lengths, are not compiled"])

EVENT = dict(exe="h_event", harness=["h_event.cpp"], ldflags=["-Wl,--wrap=backtrace"], cflags=["-DMC_NO_BACKTRACE"])
CHECKS["P23"] = dict(runs=[dict(EVENT)], assumptions=["single-threaded use", "the program ends normally and the log can be written",
                                                     "names that are not UTF-8 cannot be represented in JSON; only the line has to be valid",
                                                     "the JSON file store, not the SQLite and QuestDB ones"])

EXIT = dict(exe="h_exit", harness=["h_exit.cpp"], ldflags=["-Wl,--wrap=backtrace"], cflags=["-DMC_NO_BACKTRACE"])
CHECKS["P28"] = dict(runs=[dict(EXIT)], assumptions=["single-threaded use", "resources of the host"])
CHECKS["P29"] = dict(runs=[dict(EXIT)], assumptions=["single-threaded use", "the program ends by exit() or by returning from main",
                                                    "no object of the program with static storage uses Umpire after it was destroyed"])

RT = "tools/replay/"
REPLAY = dict(exe="h_replay", harness=["h_replay.cpp"], ldflags=["-Wl,--wrap=backtrace"], cflags=["-DMC_NO_BACKTRACE"],
              tools=[(RT + "ReplayFile.cpp", ""), (RT + "ReplayInterpreter.cpp", ""), (RT + "ReplayOperationManager.cpp", ""),
                     (RT + "replay.cpp", "replay_main"), (RT + "replaydiff.cpp", "replaydiff_main")])
CHECKS["P30"] = dict(runs=[dict(REPLAY)], assumptions=["single-threaded programs on the host resource", "the recorded program ends normally",
                                                      "no reallocation of the program failed",
                                                      "pools with the default coalescing heuristic"])

ASAN = dict(exe="h_asan", harness=["h_asan.cpp"], variant="asan", ldflags=["-Wl,--wrap=backtrace"],
            cflags=["-DMC_NO_BACKTRACE", "-DUMPIRE_ENABLE_ASAN"])
CHECKS["P31"] = dict(runs=[dict(ASAN)], assumptions=["single-threaded use", "gcc's address sanitizer, whose shadow memory covers "
                                                    "eight bytes each: bytes in front of a live byte in the same eight are not judged",
                                                    "the library compiled with UMPIRE_ENABLE_ASAN"])

STORE = dict(exe="h_store", harness=["h_store.cpp"], ldflags=["-Wl,--wrap=backtrace"], libs=["-lsqlite3"],
             cflags=["-DMC_NO_BACKTRACE", "-DUMPIRE_ENABLE_SQLITE_EXPERIMENTAL"], tools=[("src/umpire/event/sqlite_database.cpp", "")])
CHECKS["P32"] = dict(runs=[dict(STORE)], assumptions=["single-threaded use", "text that is not UTF-8 cannot be represented in JSON; only the "
                                                     "events around it have to be right", "the disk does not run full",
                                                     "the QuestDB store, which needs a server and cannot be read, is not covered"])
