from driver import lib_part
RULE = ('every applicable sequence of construct/copy/assign/reset/release/adopt/lock/unlock/destroy over three pointers up to the depth bound; '
        'distinct outcomes are distinct final histories of deletions and pointer states')
ASSUMPTIONS = ['three pointers, depth 6 (quick) or 7 (thorough)', 'single threaded', 'lock() and release() are only called on owners, as documented']
PARTS = [lib_part('ptr', 'c16.cxx')]
