from driver import lib_part, mc_part
RULE = ('every sequence of up to 3 (thorough: 4) registrations out of 13 (10 labels of different lengths with common prefixes, one of which may be repeated, some also hidden), each in a new process; after every registration the visited channels, the list, all labels and the output of all channels, '
        'and at the end all lookups of every prefix in several cases, all strings of one and some of two letters; also in a second thread; '
        'and two and three threads of which at least one registers a channel while the others register, list, visit, look up or write: every schedule with up to 2 (two operations or three threads: 1; thorough: one more) preemptions; '
        'each list must be sorted, have all channels that were registered before it started and no others than that may have been registered in the meantime; with detection of data races')
ASSUMPTIONS = ['labels have no trailing spaces', 'lookup strings have no spaces', 'no message is written at the same time as a channel with a longer label than all others is registered']
PARTS = [lib_part('orders', 'c09.cxx'), mc_part('schedules', 'c09s.cxx')]
