from driver import lib_part, mc_part
RULE = ('dc::fatal and dc::core with all 1024 combinations of control flags (quick: in other contexts than the plain one at most one flag, or all), in 13 contexts (nested in operands of other messages including fatal ones, inside a continued message, second thread, second debug object, together with other channels, ...), the debug object on or off, with and without colors; '
        'each in a new process of which the end and everything that was written are compared; '
        'and two threads with all pairs of programs of one or two statements (twelve kinds, five of which end the process) of which at least one ends it, and three threads with programs of one or two statements: for each of them every schedule with up to 3 (programs of two statements and three threads: 2 or 1; thorough: one more) preemptions')
ASSUMPTIONS = ['sequentially consistent memory; memory orders only count for the detection of data races', 'sleeping for an hour or longer is the same as waiting for the end of the process']
PARTS = [lib_part('flags', 'c06.cxx'), mc_part('schedules', 'c06s.cxx')]
