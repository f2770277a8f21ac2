from driver import mc_part
RULE = 'every pair of programs of up to two statements each (up to 3 and 4 for the second of some) and every three programs of one statement (and of two, one and one) out of eleven kinds of statements; for each of them every schedule with up to 3 (pairs), 2 (three threads; thorough: 4 and 3) or 1 preemptions at locks, atomics and conflicting memory accesses; data races are reported; the scheduler itself is tested first with programs of which all results are known'
ASSUMPTIONS = ['sequentially consistent memory', 'stand-in for the missing threadsafe submodule']
PARTS = [mc_part('engine', 'mcself.cxx', only=[], shards=2), mc_part('schedules', 'c04.cxx')]
