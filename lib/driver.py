"""Runs the parts of a check: build from /repo, explore exhaustively in shards, confirm, report, write evidence."""
import array, json, os, resource, shutil, signal, subprocess, sys, time, traceback
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
from build import Build, BuildError, VERIF, REPO

ENV_DROP = [k for k in os.environ if k.startswith('LIBCWD')]

class Part:
    """One exploration: `build(bdir)` returns the executable; it is run in `shards` processes."""
    def __init__(self, name, build, shards=8, hang=20, args=(), env=None, total=600, mem_gb=0, cores=None, queue=False):
        self.name, self.build, self.shards, self.hang, self.args, self.total = name, build, shards, hang, list(args), total
        self.env = env or {}
        self.mem_gb = mem_gb
        self.queue = queue      # The processes take the cases one by one, for cases of very different sizes.

def lib_part(name, src, only=None, exclude=(), flags=('-fsanitize=address,undefined', '-fno-sanitize-recover=undefined'),
             cxx='g++', srcs=(), link=(), src_flags=(), libs=('-ldw', '-lelf', '-ldl'), **kw):
    """The common kind: (part of) the library plus one harness source, sanitized."""
    def build(bdir):
        b = Build(bdir, cxx=cxx, flags=flags)
        objs = b.add_lib(only=only, exclude=exclude) if only != [] else []
        objs.append(b.add_src(f'{VERIF}/harness/{src}', flags=src_flags))
        for s in srcs:
            objs.append(b.add_src(f'{VERIF}/harness/{s}', flags=src_flags))
        b.compile()
        return b.link('check', objs, flags=link, libs=libs)
    return Part(name, build, **kw)

WRAP = ['malloc', 'free', 'realloc', 'calloc', 'memcpy', 'memmove', 'memset', 'dlsym', 'dl_iterate_phdr', '__cxa_thread_atexit']
def mc_part(name, src, only=None, exclude=(), opt='-O1', src_flags=(), link=(), fixtures=None, **kw):
    """The library and the harness under the controlled scheduler (see mc/)."""
    def build(bdir):
        b = Build(bdir, flags=('-fsanitize=thread', '--param=tsan-instrument-func-entry-exit=0', '-DVX_MC', f'-I{VERIF}/mc'), opt=opt)
        objs = b.add_lib(only=only, exclude=exclude) if only != [] else []
        objs.append(b.add_src(f'{VERIF}/harness/{src}', flags=src_flags))
        objs.append(b.add_src(f'{VERIF}/mc/mcrt.cxx', base=False, flags=('-O2', '-fno-builtin-malloc')))
        b.compile()
        if fixtures: fixtures(f'{bdir}/fixtures')
        return b.link('check', objs, flags=('-rdynamic', '-Wl,-z,now', *['-Wl,--wrap=' + w for w in WRAP], *link))
    kw.setdefault('hang', 700); kw.setdefault('total', 800); kw.setdefault('queue', True)
    return Part(name, build, **kw)

def shared(parts):
    """The parts only differ in how the executable is run: build it once."""
    def build(bdir, first=parts[0].build, made={}):
        if 'exe' not in made: made['exe'] = first(bdir)
        return made['exe']
    for p in parts: p.build = build
    return parts

def known_findings(pid):
    """Lines 'finding: property=<id> key=<key> <text>' of known-findings.txt."""
    r = {}
    try:
        with open(f'{VERIF}/known-findings.txt') as f:
            for l in f:
                l = l.strip()
                if l.startswith('finding:'):
                    w = l.split(None, 3)
                    if w[1] == f'property={pid}':
                        r[w[2][4:]] = w[3]
    except FileNotFoundError:
        pass
    return r

def read_case(prefix):
    try:
        with open(prefix + '.case', 'rb') as f:
            d = f.read(4016)
        idx, armed = array.array('Q', d[:16])
        return idx, armed, d[16:].split(b'\0')[0].decode('utf8', 'replace')
    except Exception:
        return 0, 0, ''

def environment(part, scratch):
    e = {k: v for k, v in os.environ.items() if k not in ENV_DROP}
    e['HOME'] = scratch
    e['VX_SCRATCH'] = scratch
    e['LIBCWD_NO_STARTUP_MSGS'] = '1'
    e['ASAN_OPTIONS'] = 'detect_leaks=0:abort_on_error=0:exitcode=99:handle_abort=0:detect_stack_use_after_return=0:allocator_may_return_null=1:color=never'
    e['UBSAN_OPTIONS'] = 'print_stacktrace=0:color=never:exitcode=98:halt_on_error=1'
    e['LC_ALL'] = 'C'
    e.pop('LD_PRELOAD', None)
    e.update({k: v.replace('$SCRATCH', scratch) for k, v in part.env.items()})
    if 'ASAN_EXTRA' in e: e['ASAN_OPTIONS'] += ':' + e.pop('ASAN_EXTRA')
    return e

class Proc:
    def __init__(self, part, exe, prefix, scratch, extra):
        self.prefix, self.part = prefix, part
        os.makedirs(scratch, exist_ok=True)
        for s in ('.json', '.case', '.states', '.outcomes'):
            try: os.remove(prefix + s)
            except FileNotFoundError: pass
        self.cmd = [exe, *part.args, '--out', prefix, *extra]
        self.env, self.scratch = environment(part, scratch), scratch
        self.log = open(prefix + '.log', 'wb')
        self.p = subprocess.Popen(self.cmd, cwd=scratch, env=self.env, stdin=subprocess.DEVNULL, stdout=self.log, stderr=self.log, start_new_session=True)
        self.last, self.t, self.t0, self.hung, self.hung_at = None, time.time(), time.time(), False, None
    def kill(self):
        try: os.killpg(self.p.pid, signal.SIGKILL)
        except ProcessLookupError: pass
        self.p.wait()
    def poll(self, hang, total):
        rc = self.p.poll()
        if rc is None:
            now, c = time.time(), read_case(self.prefix)[0]
            if c != self.last: self.last, self.t = c, now
            if now - self.t > hang:
                self.hung = True; self.hung_at = 'case'; self.kill(); rc = -9
            elif now - self.t0 > total:
                self.hung = True; self.hung_at = 'total'; self.kill(); rc = -9
        if rc is not None:
            try: os.killpg(self.p.pid, signal.SIGKILL)   # Stray children.
            except (ProcessLookupError, PermissionError): pass
            self.log.close()
        return rc
    def wait(self, hang, total):
        while True:
            rc = self.poll(hang, total)
            if rc is not None: return rc
            time.sleep(0.02)
    def result(self):
        try:
            with open(self.prefix + '.json') as f: return json.load(f)
        except Exception: return None
    def tail(self, n=6000):
        with open(self.prefix + '.log', 'rb') as f: d = f.read()
        return (d if len(d) <= n else d[:n // 2] + b'\n...\n' + d[-n // 2:]).decode('utf8', 'replace')

class CheckError(Exception):
    pass

def run_check(pid, parts, tier, rule, assumptions, level='model_checking'):
    t0 = time.time()
    root = f'{VERIF}/build/{pid}'
    out = f'{root}/out'
    shutil.rmtree(root, ignore_errors=True)
    os.makedirs(out)
    os.makedirs(f'{VERIF}/replay', exist_ok=True)
    os.makedirs(f'{VERIF}/evidence', exist_ok=True)
    known = known_findings(pid)
    kargs = [a for k in known for a in ('--known', k)]
    targs = ['--thorough'] if tier == 'thorough' else []
    states, outcomes = set(), set()
    tot = dict(cases=0, transitions=0, traces=0, evals=0, extra_states=0)
    samples, hit, exhaustive, notes, violation = [], set(), True, {}, None
    for part in parts:
        exe = part.build(f'{root}/{part.name}')
        n = part.shards
        hang = part.hang * (3 if tier == 'thorough' else 1)
        total = part.total * (20 if tier == 'thorough' else 1)
        qargs = []
        if part.queue:
            with open(f'{out}/{part.name}.queue', 'wb') as f: f.write(bytes(8))
            qargs = ['--queue', f'{out}/{part.name}.queue']
        procs = [Proc(part, exe, f'{out}/{part.name}.{i}', f'{out}/{part.name}.{i}.d', [*targs, *kargs, *qargs, '--shard', f'{i}/{n}']) for i in range(n)]
        done = {}
        while len(done) < n and violation is None:
            for i, p in enumerate(procs):
                if i in done: continue
                rc = p.poll(hang, total)
                if rc is None: continue
                r = p.result()
                if rc == 0 and r and r['status'] == 'ok':
                    done[i] = r
                    continue
                violation = confirm(pid, part, exe, out, p, rc, i, n, targs, kargs, hang, total)
                if violation is None:
                    r = p.result()
                    done[i] = r
                else:
                    break
            time.sleep(0.02)
        for p in procs:
            if p.p.poll() is None: p.kill()
        if violation: break
        for i, r in done.items():
            for k in tot: tot[k] += r[k]
            exhaustive = exhaustive and r['exhaustive']
            hit |= set(r['known_hit'])
            for s in r['samples']:
                s = f'[{part.name}] {s}'
                if s not in samples and len(samples) < 12: samples.append(s)
            for k, v in r['notes'].items():
                k = f'{part.name}.{k}'
                notes[k] = str(int(notes[k]) + int(v)) if k in notes and v.isdigit() and notes[k].isdigit() else v
            for suffix, s in (('.states', states), ('.outcomes', outcomes)):
                a = array.array('Q')
                with open(f'{out}/{part.name}.{i}{suffix}', 'rb') as f: a.frombytes(f.read())
                s.update((part.name, x) for x in a)
        for i in range(n):
            shutil.rmtree(f'{out}/{part.name}.{i}.d', ignore_errors=True)
    if violation is None and (tot['cases'] == 0 or not samples):
        raise CheckError('nothing was explored')
    ev = {'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1') or 1), 'level': level,
          'coverage': {'states': len(states) + tot['extra_states'], 'transitions': tot['transitions'], 'traces_validated_against_impl': tot['traces'],
                       'evaluations': tot['cases'], 'distinct_nontrivial': len(outcomes), 'comparisons': tot['evals'], 'rule': rule, 'samples': samples or ['(stopped at the violation)'],
                       'exhaustive': bool(exhaustive and violation is None), 'notes': notes},
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': 1 if violation else 0}
    tmp = f'{VERIF}/evidence/{pid}.json.tmp'
    with open(tmp, 'w') as f: json.dump(ev, f, indent=1)
    os.replace(tmp, f'{VERIF}/evidence/{pid}.json')
    for k in sorted(known):
        if k in hit: print(f'KNOWN-FINDING: property={pid} {k}: {known[k]}')
    if violation:
        print(f'VIOLATION property={pid} replay={violation}')
        return 1
    print(f'OK {pid}: {tot["cases"]} executions, {len(states) + tot["extra_states"]} states, {tot["transitions"]} transitions, {len(outcomes)} distinct outcomes, {ev["wall_s"]} s')
    shutil.rmtree(root, ignore_errors=True)
    return 0

def confirm(pid, part, exe, out, p, rc, shard, n, targs, kargs, hang, total):
    """Re-run what failed alone; returns the replay file when it fails again, None when the shard is fine after all."""
    idx, armed, desc = read_case(p.prefix)
    first = dict(rc=rc, hung=p.hung, res=p.result(), tail=p.tail())
    if p.hung and p.hung_at == 'total':
        raise CheckError(f'{part.name}: shard {shard} exceeded {total} s in total (case {idx}); no verdict')
    tries = [('case', ['--only', str(idx)]), ('shard', ['--shard', f'{shard}/{n}'])]
    for kind, extra in tries:
        if kind == 'case' and not armed: continue
        q = Proc(part, exe, p.prefix + f'.re-{kind}', p.prefix + f'.re-{kind}.d', [*targs, *kargs, *extra])
        qrc = q.wait(hang * 4, total * 2)
        r = q.result()
        if qrc == 0 and r and r['status'] == 'ok':
            if kind == 'shard':
                # Not reproducible: the first failure was caused by the machine (for instance memory pressure).
                for s in ('.json', '.states', '.outcomes'): shutil.copyfile(q.prefix + s, p.prefix + s)
                return None
            continue
        if qrc == 2 or qrc == 127:
            raise CheckError(f'{part.name}: harness error\n{q.tail()}')
        path = f'{VERIF}/replay/{pid}-{part.name}-{idx}.txt'
        why = 'does not terminate' if q.hung else f'violation: {r["msg"]}' if r and r['status'] == 'violation' else f'ended abnormally (status {qrc})'
        d = (r or {}).get('desc') or desc
        with open(path, 'w') as f:
            f.write(f'property {pid}, part {part.name}, case {idx}\n{why}\n\nhistory / input:\n{d}\n\n'
                    f'replay (after bin/check {pid} has built it):\n  cd {q.scratch} && env ' +
                    ' '.join(f"{k}='{v}'" for k, v in q.env.items() if k in ('ASAN_OPTIONS', 'HOME', 'LIBCWD_NO_STARTUP_MSGS', 'VX_SCRATCH') or k in part.env) +
                    ' ' + ' '.join(q.cmd) + f'\n\noutput:\n{q.tail()}\n')
        print(f'{pid}/{part.name} case {idx}: {why}\n  {d[:1500]}')
        return path
    raise CheckError(f'{part.name}: shard {shard} failed (rc {rc}) without a reproducible case\n{first["tail"]}')

def main(pid, parts, rule, assumptions):
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--thorough' in sys.argv: tier = 'thorough'
    if '--quick' in sys.argv: tier = 'quick'
    if tier not in ('quick', 'thorough'): tier = 'quick'
    sel = [a[2:] for a in sys.argv if a.startswith('-P')]
    if sel: parts = [p for p in parts if p.name in sel]
    try:
        return run_check(pid, parts, tier, rule, assumptions)
    except BuildError as e:
        print(f'ERROR {pid}: cannot build\n{e}')
    except CheckError as e:
        print(f'ERROR {pid}: {e}')
    except Exception:
        traceback.print_exc()
    return 2
