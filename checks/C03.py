from driver import lib_part
RULE = ('all programs (forests of statements: plain, nested in the operands of another, continued_cf, dc::continued, dc::finish, switched-off, flushed, no newline, std::cerr, errno) up to 9 statements, with and without colors and always_flush, '
        'the output after every statement compared with a stack model; states are distinct outputs after a statement, outcomes distinct complete outputs')
ASSUMPTIONS = ['every continued message that is started within the operands of a statement is also finished there', 'the debug object is not switched on or off between continued_cf and its dc::finish']
PARTS = [lib_part('programs', 'c03.cxx', flags=(), total=800), lib_part('sanitized', 'c03.cxx', args=['--small'])]
