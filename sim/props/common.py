LEVEL = "exploration"
REAL = ["the complete tool: main.py, CLI, parser (textX), validation, all four generators, printers",
        "CPython 3.12 including its I/O stack, exit-status and traceback handling", "the kernel's tmpfs below the seam"]
STUB = ["file-system calls of the process pass a seam (LD_PRELOAD) where the scheduler decides result, errno, length, "
        "kill or signal; clock, sleep, getrandom, pid and directory order are simulated"]
ASSUMPTIONS = ["system calls not made through libc's wrappers would bypass the seam (CPython makes none)",
               "a fork of an interpreter that has imported the tool behaves like a freshly started one",
               "seeded sampling: a clean batch is evidence, not proof"]
