from driver import lib_part
RULE = ('every history of up to 2 (all operations, three objects), 3 (all operations, two objects; half of the operations, three objects) or 4 operations (thorough: up to 6) on debug objects, out of messages of all kinds, on/off/force_on/restore, stream and mutex, '
        'margin, marker, colors, indentation, always_flush, the same for all objects, and operations on one object inside an operand of a message of another; what each object shows (bytes, flushes, state after each operation) is compared with what it shows when only its own operations are done; '
        'and the mutex that is held at each write is checked')
ASSUMPTIONS = ['histories that are programming errors (finish without continued_cf, on() of an object that is on) are excluded']
PARTS = [lib_part('objects', 'c13.cxx')]
