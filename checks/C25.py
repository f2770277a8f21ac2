from driver import mc_part, shared
RULE = 'two threads that start with every pair of the ways to initialise a thread (not at all; init_thread with or without a name in each of its modes), that both use type information, demangling, buf2str or strerrno for the first time, threads that start while main is writing messages, three threads, and all ways in which the first calls of init_thread can be divided over the first thread and two or three others; for each of them every schedule with up to 2 (first uses and main writing messages 3, three threads 1; thorough: one more) preemptions, with data race detection'
ASSUMPTIONS = ['sequentially consistent memory; memory orders only count for the detection of data races', 'main called init() before it started threads, as documented (part first: only main_reached())', 'stand-in for the missing threadsafe submodule']
PARTS = shared([mc_part('schedules', 'c25.cxx'), mc_part('first', 'c25.cxx', args=['first'])])
