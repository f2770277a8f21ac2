from driver import lib_part
RULE = ('all 1024 subsets of the control flags times margins, markers, indents, colors, always_flush, destination and payloads, also given in eight other ways and places between channels that are on and off, each followed by a plain message, compared byte for byte (and flush for flush) with a reference layout; '
        'distinct outcomes are distinct outputs')
ASSUMPTIONS = ['contents of margin and marker have no NUL bytes (C12)', 'nested and continued output is C03, several threads C04']
PARTS = [lib_part('layout', 'c02.cxx')]
