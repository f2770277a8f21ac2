from driver import lib_part
RULE = ('every integer of the window, windows around all powers of two from both ends of int, and error_cf for errno -3..200 with operands that change errno; compared with the C library\'s own names; '
        'distinct outcomes are distinct texts')
ASSUMPTIONS = ['the names of the C library (strerrorname_np) are those of the Linux ABI; synonyms of one number are interchangeable', 'window of 2 million integers around 0 (quick), 50 million (thorough)']
PARTS = [lib_part('errno', 'c15.cxx')]
