from driver import mc_part, shared
RULE = 'pairs of programs of one or two statements (writing plain, nested, flushed, long and continued messages, messages of another debug object on the same stream, output of the application itself; switching stream, mutex or both; asking for the stream) and three programs of one statement (and of one, one and two); for each of them every schedule with up to 3 (pairs), 2 or 1 (three threads) preemptions (thorough: one more) at locks, atomics and conflicting memory accesses; plus all sequences of up to 5 (6) such calls by one thread'
ASSUMPTIONS = ['sequentially consistent memory', 'a thread does not call set_ostream while it holds the mutex that is in use', 'stand-in for the missing threadsafe submodule']
PARTS = shared([mc_part('histories', 'c05.cxx', args=['histories']), mc_part('schedules', 'c05.cxx')])
