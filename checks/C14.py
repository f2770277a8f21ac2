from driver import lib_part
RULE = ('every byte, every pair of bytes and every string up to the length bound over 24 representative bytes, printed under five stream states and compared with a table-driven reference; '
        'distinct outcomes are distinct printed texts')
ASSUMPTIONS = ['strings of length 3 and more (4 quick, 5 thorough) use one representative per class of bytes the specification distinguishes plus their neighbours', 'plain char is signed, as on this platform']
PARTS = [lib_part('buf', 'c14.cxx')]
