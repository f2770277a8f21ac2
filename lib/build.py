"""Builds libcwd (all of it, including debug.cxx and dwarf.cxx) and harnesses from /repo's working tree."""
import glob, os, re, subprocess, sys, concurrent.futures, hashlib, shutil

REPO = os.environ.get('CWD_REPO', '/repo')
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

class BuildError(Exception):
    pass

def _read(p):
    with open(p) as f:
        return f.read()

def gen_headers(out, datadir):
    """What CMake's configure_file would write for the project's default options."""
    inc = os.path.join(out, 'include')
    os.makedirs(os.path.join(inc, 'libcwd'), exist_ok=True)
    top = _read(f'{REPO}/CMakeLists.txt')
    m = re.search(r'project\(libcwd[ \t\r\n]+VERSION ([0-9]+)\.([0-9]+)\.([0-9]+)', top)
    ver = m.groups()
    subst = {
        'CW_CONFIG_GLIBCXX_DEBUG': '0', 'CW_CONFIG_LOCATION': '1', 'CW_CONFIG_DEBUG': '0',
        'CW_CONFIG_DEBUGOUTPUT': '0', 'CW_CONFIG_DEBUGT': '0',
        'VERSION_MAJOR': ver[0], 'VERSION_MINOR': ver[1], 'VERSION_REVISION': ver[2],
        'CW_CONFIG_BUILTIN_RETURN_ADDRESS_OFFSET': '-1', 'libcwd_datadir': datadir,
    }
    have = {'HAVE_PWD_H', 'HAVE_SYS_RESOURCE_H', 'HAVE_DLOPEN', 'HAVE__RTLD_GLOBAL', 'HAVE_GETEGID',
            'HAVE_GETGROUPS', 'HAVE_GETGID'}
    def conv(text):
        text = re.sub(r'@([A-Za-z_0-9]+)@', lambda m: subst.get(m.group(1), ''), text)
        text = re.sub(r'^#cmakedefine01 (\w+).*$', lambda m: f'#define {m.group(1)} 1', text, flags=re.M)
        text = re.sub(r'^#cmakedefine (\w+)(.*)$',
                      lambda m: f'#define {m.group(1)}{m.group(2)}' if m.group(1) in have else f'/* #undef {m.group(1)} */',
                      text, flags=re.M)
        return text
    for src, dst in (('include/cmake-config.h.in', 'config.h'), ('include/libcwd/config.h.in', 'libcwd/config.h'),
                     ('include/cwd_sys.h.in', 'cwd_sys.h')):
        with open(os.path.join(inc, dst), 'w') as f:
            f.write(conv(_read(f'{REPO}/{src}')))
    return '.'.join(ver)

def run(cmd, cwd=None):
    p = subprocess.run(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True)
    if p.returncode != 0:
        raise BuildError(' '.join(cmd) + '\n' + p.stdout[:4000])
    return p.stdout

class Build:
    """One build configuration in directory `out` (wiped first)."""
    def __init__(self, out, cxx='g++', flags=(), datadir='/nonexistent/libcwd-datadir', opt='-O1'):
        self.out = out
        shutil.rmtree(out, ignore_errors=True)
        os.makedirs(out)
        self.cxx = cxx
        self.version = gen_headers(out, datadir)
        self.flags = ['-std=c++20', '-g', opt, '-fPIC', '-pthread', '-w', '-DCWDEBUG', *flags]
        self.jobs = []
        self.objs = []

    def inc(self, utils=False):
        r = [f'-I{self.out}/include', f'-I{REPO}/include', f'-I{REPO}']
        if utils:
            r.append(f'-I{self.out}/include/libcwd')
        return r + [f'-I{VERIF}/shim', f'-I{VERIF}/harness']

    def lib_sources(self):
        s = [(p, False) for p in sorted(glob.glob(f'{REPO}/src/*.cxx'))]
        s += [(p, True) for p in sorted(glob.glob(f'{REPO}/src/utils/*.cxx'))]
        return s

    def add_lib(self, only=None, exclude=(), flags=()):
        """Schedule the library's sources; returns the object list."""
        objs = []
        for p, utils in self.lib_sources():
            b = os.path.basename(p)
            if only is not None and b not in only or b in exclude:
                continue
            o = f'{self.out}/{"u_" if utils else ""}{b}.o'
            self.jobs.append([self.cxx, *self.flags, *flags, f'-DVERSION="{self.version}"', *self.inc(utils), '-c', p, '-o', o])
            objs.append(o)
        return objs

    def add_src(self, path, name=None, flags=(), base=True, cxx=None):
        o = f'{self.out}/{name or os.path.basename(path)}.o'
        f = self.flags if base else ['-std=c++20', '-g', '-O1', '-fPIC', '-pthread', '-w']
        self.jobs.append([cxx or self.cxx, *f, *flags, *self.inc(), '-c', path, '-o', o])
        return o

    def compile(self):
        jobs, self.jobs = self.jobs, []
        with concurrent.futures.ThreadPoolExecutor(max_workers=8) as ex:
            list(ex.map(run, jobs))

    def link(self, exe, objs, flags=(), libs=('-ldw', '-lelf', '-ldl')):
        lf = [f for f in self.flags if f.startswith('-fsanitize') and f != '-fsanitize=thread']
        run([self.cxx, '-pthread', *lf, *flags, '-o', f'{self.out}/{exe}', *objs, *libs])
        return f'{self.out}/{exe}'
