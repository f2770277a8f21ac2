from driver import lib_part
RULE = ('every history of up to 3 (thorough: 4) operations on the margin and on the marker out of assign, append, prepend (lengths around the capacities, NUL bytes), reserve, push and pop; longer ones with fewer operations; all lengths up to 600; '
        'every history of up to 4 (thorough: 6) operations on Indent and Mark scopes, indentation and marker, up to 7 (thorough: 9) with fewer operations; all indentations up to 2400 and some up to 65535; compared with std::string, a stack and an integer after each operation, including the line that is printed')
ASSUMPTIONS = ['the argument is not a part of the string itself', 'scopes are closed innermost first', 'indentation does not exceed 65535']
PARTS = [lib_part('format', 'c12.cxx')]
