from driver import Part
from build import Build, VERIF
import os
def build(bdir):
    d = f'{bdir}.data'
    os.makedirs(f'{d}/libcwd', exist_ok=True)
    with open(f'{d}/libcwd/libcwdrc', 'w') as f:
        f.write('silent = on\ngdb = data\n')
    b = Build(bdir, flags=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'), datadir=d)
    objs = b.add_lib()
    objs.append(b.add_src(f'{VERIF}/harness/c10.cxx', flags=[f'-DDATADIR_DIR="{d}"']))
    b.compile()
    return b.link('check', objs)
RULE = ('every rcfile up to the line bound over 21 kinds of lines, every pair of rcfile and override file up to the bounds, files with an error at every position, every line of up to 6 (thorough: 7) characters out of seven, three names with everything of up to three characters out of four between them, and all combinations of existing files in the search path '
        '(1152 cases), each compared with a model of the documented meaning; distinct outcomes are distinct resulting states and messages')
ASSUMPTIONS = ['at most 3 (thorough 4) lines per file', 'the password database and access() are answered by the harness', 'each file is read by a thread with a fresh debug state']
PARTS = [Part('rc', build)]
