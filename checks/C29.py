from driver import lib_part, mc_part
RULE = 'every applicable sequence of five (thorough: six) operations on three intrusive pointers to at most three objects (new, copy, move, swap, clear, inhibit, allow, allow two, deferred allow, copy and assignment of the object), compared with a reference count kept by the test after every step; every schedule with up to 4, respectively 3, preemptions (thorough: 6, 5 and 4) of two threads with programs of up to two, respectively three and one, and three threads with programs of up to one operation(s) on a shared object, with data race detection according to the C++ memory orders'
ASSUMPTIONS = ['schedules are sequentially consistent; memory orders only count for the detection of data races', 'a thread only uses the object while it has a reference']
PARTS = [lib_part('sequences', 'c29.cxx'), mc_part('schedules', 'c29.cxx')]
