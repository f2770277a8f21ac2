from driver import Part, VERIF
from build import Build
RULE = ('all histories of up to 4 (thorough: 5) operations, and of up to 5 (thorough: 7) with two addresses only, on three Location objects (construct default or from 6 addresses of different kinds, copy-construct, assign, self-assign, pc_location, clear, lock_ownership, destroy), histories that lead to the same objects (compared byte for byte, except addresses) are continued once; '
        'after each operation every accessor and the printed form of every object is compared with that of a specification of values with an owner, and at the end all paths must be released exactly once. A path that is released is poisoned')
ASSUMPTIONS = ['lock_ownership is only called for the owner', 'whether an object stays locked after it was given another location is left open']
SAN = ('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined')
def build(bdir):
    b = Build(bdir, flags=SAN)
    objs = b.add_lib()
    objs += [b.add_src(f'{VERIF}/harness/c23.cxx'), b.add_src(f'{VERIF}/harness/c23_nodebug.cxx', flags=('-g0',))]
    b.compile()
    return b.link('check', objs)
PARTS = [Part('histories', build, total=3000, hang=600)]
