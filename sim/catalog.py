"""
The catalogue of checks: sizes, what is real and what is a stub.
"""

REAL = ["daeso (all of /repo/lib, executed unmodified under Jython 2.7)",
        "networkx 1.9.1", "expat/ElementTree of Jython",
        "glob, tempfile, zipfile, pickle, shutil of the standard library"]
STUBS = ["operating system interface (in-memory file system, processes with "
         "user-space buffers, clock)"]
ASSUME = ["the simulated file system behaves like a POSIX file system whose "
          "completed system calls survive the crash of a process (not a "
          "power failure)",
          "the seeded search samples the space; a clean batch is evidence, "
          "not proof"]

CHECKS = {}


def check(pid, quick, thorough, rule, real=REAL, stubs=STUBS, assumptions=ASSUME,
          **kw):
    CHECKS[pid] = dict(quick=quick, thorough=thorough, rule=rule, real=real,
                       stubs=stubs, assumptions=assumptions, **kw)


check("C01", 400, 12000, "random corpora")
check("C02", 110, 3000, "runs in which a save met a fault")
check("C03", 250, 6000, "runs with damaged input or a failing system call")
check("C04", 500, 12000, "loads of a graphbank")
check("C05", 400, 9000, "corpora loaded in all modes")
check("C06", 220, 9000, "histories with collections")
check("C07", 400, 9000, "histories of loading, joining and saving")
check("C08", 110, 9000, "histories of copying, moving and changing prefixes")
check("C09", 900, 9000, "histories of edits, saves and crashes")
check("C10", 60, 3000, "corpora split and joined")
check("C11", 70, 3000, "archives made and unpacked")
check("C12", 130, 4000, "runs of the statistics tools")
check("C13", 1000, 20000, "histories of tables")
check("C14", 45, 2000, "segments counted again and again")
check("C15", 110, 8000, "histories of documents")
check("C16", 95, 6000, "conversions of documents")
check("C17", 150, 6000, "corpora made from parallel texts")
check("C18", 160, 6000, "schedules of threads")
check("C19", 150, 8000, "histories with clock jumps")
check("C20", 150, 8000, "histories with generators")
check("C21", 800, 20000, "histories of directories made and patterns expanded")
check("C22", 120, 8000, "pairs of runs of a command line tool")
check("C23", 150, 6000, "evaluations")
check("C24", 110, 6000, "reports of differences and phrases")
check("C25", 80, 6000, "schedules of processes")
check("C26", 600, 20000, "histories of graphs")
