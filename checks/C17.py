from driver import lib_part, shared, VERIF
RULE = ('all strings over focused alphabets up to a length (15 alphabets, up to 7 characters after a prefix), every truncation, deletion, insertion, substitution, exchange and repetition in 179 names, every byte at every position, every operator code in 30 contexts, '
        'and 200-fold nesting of every production with overflowing numbers; each at the end of a readable page under AddressSanitizer and UndefinedBehaviorSanitizer. '
        'Names that match no production of the grammar must be returned unchanged, any other must give the same text whatever the output string holds. Distinct outcomes are distinct results (first 100000 per process)')
ASSUMPTIONS = ['what is a name at all is decided by an independent parser of the grammar documented in cwd_demangle.h; where it is ambiguous whether a name is valid, only totality, determinism and memory safety are checked']
ENV = {'VX_CORPUS': f'{VERIF}/harness/c17_corpus.txt'}
PARTS = shared([lib_part(w, 'c17.cxx', args=[f'--what={w}'], env=ENV) for w in ('total', 'edits', 'deep', 'bytes', 'operators')])
