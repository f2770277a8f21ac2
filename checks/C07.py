from driver import lib_part, mc_part, shared
RULE = ('every history of up to 3 operations (all kinds, three threads and the first thread), 4 (two threads, many kinds; thorough: all kinds, and 5) and 5 (few kinds; thorough: 6) operations that change or use debug state: messages, continued messages, channels and debug objects on, off and forced on, margin, marker, colors, indentation, '
        'location format, init_thread, and the end of a thread, after which its slot is taken by a new thread; each thread must start in the initial state and print and report what it does when it is alone, and the first thread must see no change; '
        'and two threads (or one and the first thread) that do one of all operations, or two of them, at the same time: every schedule with up to 2 (two operations: 1; thorough: one more) preemptions, with detection of data races')
ASSUMPTIONS = ['application-wide settings (always_flush, the stream, the set of channels) are not part of the state of a thread']
a = lib_part('keep', 'c07.cxx')
b = lib_part('reuse', 'c07.cxx', env={'ASAN_EXTRA': 'quarantine_size_mb=0:thread_local_quarantine_size_kb=0'})
PARTS = shared([a, b]) + [mc_part('schedules', 'c07s.cxx')]
