from driver import lib_part
RULE = ('every sequence of on/off/force_on/restore on a debug object and two channels of the depth bound, with 13 kinds of Dout statements and is_on() after every step, and every operation inside the operands '
        'of a statement at the end; compared with a model of counters; distinct outcomes are distinct histories of written/not written')
ASSUMPTIONS = ['depth 6 (thorough 7) for libcw_do, 2 less for a custom debug object', 'restore() only when on/off were called in pairs since force_on(), as documented', 'on() of a channel that is on is a documented fatal error, checked apart']
PARTS = [lib_part('onoff', 'c01.cxx', flags=())]
