from driver import lib_part
RULE = ('attach_gdb with fork, system, waitpid and nanosleep answered by the harness: all combinations of the poll at which the debugger attaches (never, 1 to 130), the poll at which the terminal ends (never, 0 to 130; denser around 50), how it ends, interrupted and failing waits; '
        'all exit codes and signals of system in the child; failing forks; settings of gdb and xterm of all lengths up to beyond the limits. Distinct outcomes are how it ends')
ASSUMPTIONS = ['the settings contain no percent signs other than one %s', 'an end of the terminal may be noticed up to some hundred polls later, and not at all when the debugger attaches in the meantime']
W = tuple(f'-Wl,--wrap={f}' for f in ('fork', 'waitpid', 'nanosleep', 'system'))
PARTS = [lib_part('env', 'c27.cxx', link=W)]
