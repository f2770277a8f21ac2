from driver import lib_part
RULE = ('every mask up to the length bound over {A,b,*} (and one shorter with both cases), every byte as mask of its own and next to itself and to an asterisk, and every list of two or three of seven masks with every separator, read from an rcfile and compared, '
        'for 90 labels at once (among which every printable character), with a table-driven definition of glob matching; distinct outcomes are distinct sets of selected channels')
ASSUMPTIONS = ['masks of at most 5 (thorough 7) characters over a two-letter alphabet, labels of at most 8 characters (of which, for longer ones, only two different letters)', 'labels contain no white space']
PARTS = [lib_part('mask', 'c11.cxx')]
