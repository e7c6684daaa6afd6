"""Machinery shared by all checks."""
import collections, hashlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time, traceback

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')  # development only: checks run against /repo
SPEC = os.path.join(VERIF, 'spec')
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
GOENV = {
    'HOME': '/root',
    'PATH': '/opt/veriftools/go1.27.3/bin:/usr/local/bin:/usr/bin:/bin:/usr/sbin:/sbin',
    'GOTOOLCHAIN': 'local', 'GOPROXY': 'off', 'GOFLAGS': '-mod=mod', 'GOWORK': 'off',
    'GOPATH': '/root/go', 'GOMODCACHE': '/root/go/pkg/mod', 'GOCACHE': '/root/.cache/go-build',
}
NCPU = int(os.environ.get('VERIF_NCPU', 0)) or os.cpu_count() or 4  # VERIF_NCPU: development only

from vprops import PROPS, COMPONENTS


class CheckError(Exception):
    """The check could not be carried out."""


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def run(cmd, timeout, env=None, cwd=None, out=None):
    """Run cmd in its own process group; returns (rc or None on timeout, output)."""
    e = dict(GOENV)
    e.update({k: v for k, v in os.environ.items() if k.startswith('VERIF_') or k == 'TMPDIR'})
    e.update(env or {})
    f = open(out, 'w+b') if out else tempfile.TemporaryFile()
    p = subprocess.Popen(cmd, stdout=f, stderr=subprocess.STDOUT, stdin=subprocess.DEVNULL, env=e, cwd=cwd, start_new_session=True)
    try:
        rc = p.wait(timeout)
    except subprocess.TimeoutExpired:
        rc = None
        try:
            os.killpg(p.pid, signal.SIGQUIT)
            p.wait(3)
        except Exception:
            pass
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        p.wait()
    f.seek(0)
    data = f.read().decode('utf-8', 'replace')
    f.close()
    return rc, data


class Build:
    """The harness built against /repo's current working tree."""

    def __init__(self, scratch):
        self.scratch = scratch
        self.instrumented = False
        # A copy, so that the go command cannot touch the committed go.mod.
        self.h = os.path.join(scratch, 'harness')
        shutil.copytree(os.path.join(VERIF, 'harness'), self.h)
        if REPO != '/repo':
            p = os.path.join(self.h, 'go.mod')
            text = open(p).read().replace('=> /repo', '=> ' + REPO)
            open(p, 'w').write(text)
        self.sched = os.path.join(scratch, 'verifsched.go')
        shutil.copy(os.path.join(VERIF, 'tools', 'verifsched.go.txt'), self.sched)
        rc, o = run(['go', 'build', '-o', os.path.join(scratch, 'instr'), '.'], 300, cwd=os.path.join(VERIF, 'tools', 'instr'))
        if rc != 0:
            raise CheckError('cannot build the instrumenter:\n' + o)
        self.bin = None
        for plain in (False, True):
            try:
                self.bin = self.make(plain)
                self.instrumented = not plain
                break
            except CheckError as e:
                err = e
        if self.bin is None:
            raise err

    def make(self, plain):
        d = os.path.join(self.scratch, 'ov-plain' if plain else 'ov')
        os.makedirs(d, exist_ok=True)
        rc, o = run([os.path.join(self.scratch, 'instr')] + (['-plain'] if plain else []) +
                    [REPO, d, self.sched, '.', 'dependency', 'catacomb'], 120)
        if rc != 0:
            raise CheckError('instrumenter failed:\n' + o)
        b = os.path.join(self.scratch, 'drive-plain' if plain else 'drive')
        rc, o = run(['go', 'test', '-c', '-vet=off', '-overlay', os.path.join(d, 'overlay.json'), '-o', b, './drive'], 600, cwd=self.h)
        if rc != 0:
            raise CheckError('cannot build the harness against /repo:\n' + o[-4000:])
        return b


class Abnormal(Exception):
    def __init__(self, kind, script, output):
        super().__init__(kind)
        self.kind, self.script, self.output = kind, script, output


FRAME = re.compile(r'github\.com/juju/worker/v4(/dependency|/catacomb|/workertest|/dependency/testing)?\.')


def drive(b, args, prefix, timeout, plain=False):
    """Run the harness once.  Returns (scripts, traces); raises Abnormal."""
    cmd = [b, '-test.run', 'TestDrive', '-test.timeout', '0', '-out', prefix] + args
    if plain:
        cmd.append('-plain')
    rc, o = run(cmd, timeout, env={'GOMAXPROCS': '1', 'GOTRACEBACK': 'all', 'GODEBUG': 'tracebacklabels=1'}, out=prefix + '.log')
    def lines(ext):
        try:
            with open(prefix + ext) as f:
                return [x for x in f.read().split('\n') if x]
        except FileNotFoundError:
            return []
    scripts, traces = lines('.scripts'), lines('.traces')
    ok = rc == 0 and 'DRIVE-DONE' in o
    if ok:
        return scripts, traces, None
    n = len(traces)
    # A truncated last line belongs to the run that was interrupted.
    while traces and not traces[-1].endswith('}'):
        traces.pop()
    kind = 'hang' if rc is None else 'runaway' if rc == 7 else 'crash'
    script = scripts[len(traces)] if len(scripts) > len(traces) else None
    return scripts[:len(traces)], traces, Abnormal(kind, script, o)


def shards(build, comp, focus, total, seed, scratch, timeout, infiles=None, plain=False):
    """Record traces of `total` generated scenarios (or of script files) on all cores."""
    jobs = []
    procs = []
    b = build.bin
    n = NCPU
    per = max(1, total // n)
    import concurrent.futures as cf
    def one(i):
        prefix = os.path.join(scratch, 'sh%s%d' % ('f' if infiles else '', i))
        if infiles:
            args = ['-in', infiles[i]]
        else:
            args = ['-comp', comp, '-focus', focus, '-scn', str(per), '-vseed', str(seed * 1000003 + i * 7919 + hash_str(comp + focus))]
        return drive(b, args, prefix, timeout, plain)
    with cf.ThreadPoolExecutor(n) as ex:
        res = list(ex.map(one, range(len(infiles) if infiles else n)))
    return res


def hash_str(s):
    return int(hashlib.sha256(s.encode()).hexdigest()[:6], 16)


def confirm(build, ab, scratch, plain):
    """Re-run the script of an abnormal end; returns (count, runs, output)."""
    if ab.script is None:
        return 0, 0, ''
    f = os.path.join(scratch, 'confirm.in')
    with open(f, 'w') as fh:
        fh.write(ab.script + '\n')
    hits = 0
    runs = 0
    out = ''
    t0 = time.time()
    for i in range(4):
        if time.time() - t0 > 100:
            break
        runs += 1
        _, _, a = drive(build.bin, ['-in', f, '-rep', '60'], os.path.join(scratch, 'confirm%d' % i), 25, plain)
        if a is not None and a.kind == ab.kind:
            hits += 1
            out = a.output
    return hits, runs, out


def tlc(module, cfg, scratch, env=None, timeout=600, workers=None, extra=(), heap='6g', props=(), gc='Parallel'):
    md = tempfile.mkdtemp(prefix='md', dir=scratch)
    cmd = ['java', '-Xmx' + heap, '-Xss16m', '-XX:+Use%sGC' % gc, *props, '-cp', CP, 'tlc2.TLC', '-workers', str(workers or NCPU),
           '-metadir', md, '-noGenerateSpecTE', '-config', cfg, *extra, module]
    rc, o = run(cmd, timeout, env=env, cwd=scratch)
    shutil.rmtree(md, ignore_errors=True)
    return rc, o


STATS = re.compile(r'(\d+) states generated, (\d+) distinct states found')


def stats(o):
    m = None
    for m in STATS.finditer(o):
        pass
    return (int(m.group(1)), int(m.group(2))) if m else (0, 0)


def unq(line):
    line = line.strip()
    if line.startswith('"') and line.endswith('"'):
        line = line[1:-1].replace('\\"', '"').replace('\\\\', '\\')
    return line


def check_traces(module, traces, scratch, timeout=700, env=None):
    """Evaluate the contract on the traces with TLC.  Returns (violations, states, done)."""
    import concurrent.futures as cf
    n = max(1, min(NCPU, len(traces) // 40))
    per = (len(traces) + n - 1) // n
    def one(k):
        part = traces[k * per:(k + 1) * per]
        if not part:
            return [], (0, 0), 0
        f = os.path.join(scratch, 'traces.%s.%d.ndjson' % (module, k))
        with open(f, 'w') as fh:
            for t in part:
                fh.write(t + '\n')
        e = {'TRACES': f}
        e.update(env or {})
        rc, o = tlc(os.path.join(SPEC, module + '.tla'), os.path.join(SPEC, module + '.cfg'), scratch, env=e, timeout=timeout,
                    workers=1, heap='3g', gc='Serial')
        os.unlink(f)
        viol = []
        done = 0
        for line in o.split('\n'):
            line = unq(line)
            if line.startswith('DONE '):
                done += 1
            elif line.startswith('VIOL '):
                j = json.loads(line[5:])
                for v in j['v']:
                    viol.append((j['t'] + k * per, v[0], v[1], v[2]))
        if rc != 0 or done != len(part):
            raise CheckError('TLC did not evaluate all traces (rc=%s, %d of %d):\n%s' % (rc, done, len(part), o[-3000:]))
        return viol, stats(o), done
    viol, gen, dist, done = [], 0, 0, 0
    with cf.ThreadPoolExecutor(n) as ex:
        for v, (g, d), dn in ex.map(one, range(n)):
            viol += v
            gen += g
            dist += d
            done += dn
    return viol, (gen, dist), done


def dedupe(scripts, traces):
    seen = set()
    s2, t2 = [], []
    for s, t in zip(scripts, traces):
        h = hashlib.sha256(t.encode()).digest()
        if h in seen:
            continue
        seen.add(h)
        s2.append(s)
        t2.append(t)
    return s2, t2


def write_replay(prop, data):
    d = os.path.join(VERIF, 'build', 'replay')
    os.makedirs(d, exist_ok=True)
    p = os.path.join(d, prop + '.json')
    with open(p, 'w') as f:
        json.dump(data, f, indent=1)
    return p


def evidence(prop, tier, seed, level, cov, assumptions, t0, violations):
    d = os.path.join(VERIF, 'evidence')
    os.makedirs(d, exist_ok=True)
    ev = {'property': prop, 'tier': tier, 'seed': seed, 'level': level, 'coverage': cov,
          'assumptions': assumptions, 'wall_s': round(time.time() - t0, 2), 'violations': violations}
    p = os.path.join(d, prop + '.json')
    with open(p + '.tmp', 'w') as f:
        json.dump(ev, f, indent=1)
    os.replace(p + '.tmp', p)


def main(argv):
    if not argv or argv[0] not in PROPS:
        log('usage: check <property>; known: ' + ' '.join(sorted(PROPS)))
        return 2
    prop = argv[0]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    if '--thorough' in argv:
        tier = 'thorough'
    try:
        seed = int(os.environ.get('VERIF_SEED', '1'))
    except ValueError:
        seed = 1
    os.makedirs(os.path.join(VERIF, 'build'), exist_ok=True)
    scratch = tempfile.mkdtemp(prefix='chk-%s-' % prop, dir=os.path.join(VERIF, 'build'))
    try:
        import vcheck_impl
        return vcheck_impl.check(prop, tier, seed, scratch)
    except CheckError as e:
        log('ERROR: %s' % e)
        return 2
    except Exception:
        traceback.print_exc()
        return 2
    finally:
        shutil.rmtree(scratch, ignore_errors=True)
