from driver import lib_part, mc_part, shared
RULE = ('every history of up to 3 (all operations, three threads), 4 (two threads) and with fewer operations up to 6 (thorough: 7) operations in which a thread ends: messages complete, without newline, continued (flushed or not), finished in several ways, nested, with colors, and the end of a thread, '
        'after which other threads write, the rest ends and another thread writes; the stream after each operation is compared with a model; under AddressSanitizer, once with freed memory kept and once with freed memory reused at once; and every schedule with up to 3 or 2 preemptions (thorough: one more) of threads that end with something incomplete, or write from the destructors of thread_local objects, while others write, end, and start, with detection of data races and of any access to freed memory')
ASSUMPTIONS = ['what a thread that ends had not yet written (a continued message that was not flushed) is lost', 'sequentially consistent memory in the part with schedules']
a = lib_part('keep', 'c08.cxx')
b = lib_part('reuse', 'c08.cxx', env={'ASAN_EXTRA': 'quarantine_size_mb=0:thread_local_quarantine_size_kb=0'})
PARTS = shared([a, b]) + [mc_part('ends', 'c04.cxx', src_flags=['-DENDS'])]
