from driver import lib_part
RULE = ('every sequence of up to three ranges over 8 addresses, of four over 5 (thorough 6) and of five over 3 (thorough 5), each range from debug information or from the symbol table; '
        'after every insertion every address is compared with the definition (best covering range); distinct outcomes are distinct final maps')
ASSUMPTIONS = ['at most five ranges over at most 8 addresses; the algorithm only compares addresses, so only their order and size order matter', 'among candidates of equal kind and size either is accepted']
PARTS = [lib_part('ranges', 'c20.cxx')]
