"""Common machinery of the checks: build the harness, run it, run TLC, report."""
import json, os, random, re, resource, shutil, signal, subprocess, sys, tempfile, time, threading
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
HARNESS = os.path.join(VERIF, 'harness')
VIRT = os.path.join(VERIF, 'virt')
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)
TIER = os.environ.get('VERIF_TIER', 'quick') or 'quick'
THOROUGH = TIER == 'thorough'
CP = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = 8
NOBODY = 65534


class Machinery(Exception):
    """The check itself could not do its work."""


class Ctx:
    """One run of one check."""

    def __init__(self, pid, level='model_checking'):
        self.pid, self.level = pid, level
        self.t0 = time.time()
        self.dir = tempfile.mkdtemp(prefix='gv-%s-' % pid, dir='/tmp')
        os.chmod(self.dir, 0o755)
        self.rng = random.Random('%s/%s/%s' % (pid, SEED, TIER))
        self.states = self.transitions = self.traces = 0
        self.samples, self.notes, self.models, self.jobs = [], [], [], []
        self.classes = {}
        self.assumptions = []
        self.violations = []
        self.lock = threading.Lock()

    def note(self, s):
        print('# ' + s, flush=True)
        self.notes.append(s)

    def count(self, cls, n=1):
        self.classes[cls] = self.classes.get(cls, 0) + n

    def sample(self, s, limit=6):
        if len(self.samples) < limit:
            t = json.dumps(s)
            self.samples.append(s if len(t) < 1500 else t[:1500] + '...')

    def path(self, name):
        return os.path.join(self.dir, name)

    def cleanup(self):
        shutil.rmtree(self.dir, ignore_errors=True)

    def evidence(self):
        d = os.path.join(VERIF, 'evidence')
        os.makedirs(d, exist_ok=True)
        cov = {
            'states': self.states, 'transitions': self.transitions,
            'traces_validated_against_impl': self.traces,
            'samples': self.samples or ['none'],
            'models': self.models, 'conformance': self.jobs, 'classes': self.classes,
            'notes': self.notes,
        }
        ev = {'property': self.pid, 'tier': 'thorough' if THOROUGH else 'quick', 'seed': SEED,
              'level': self.level, 'coverage': cov, 'assumptions': self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        with open(os.path.join(d, self.pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)

    def violation(self, what, obj):
        d = os.path.join(VERIF, 'evidence', 'replay')
        os.makedirs(d, exist_ok=True)
        p = os.path.join(d, '%s-%d.json' % (self.pid, len(self.violations)))
        with open(p, 'w') as f:
            json.dump({'property': self.pid, 'what': what, 'case': obj}, f, indent=1)
        self.violations.append(what)
        print('# ' + what, flush=True)
        print('VIOLATION property=%s replay=%s' % (self.pid, p), flush=True)


# ---------------------------------------------------------------------------
# building

_built = {}
_build_lock = threading.Lock()


def go_env(extra=None):
    env = dict(os.environ)
    env.update(GOFLAGS='-mod=mod -buildvcs=false', GOTOOLCHAIN='local', GOPROXY='off', GO111MODULE='on')
    env.setdefault('HOME', '/root')
    env.pop('GOWORK', None)
    if extra:
        env.update(extra)
    return env


def build(race=False):
    """Build the harness from the current tree of the repository."""
    with _build_lock:
        if race in _built:
            return _built[race]
        d = tempfile.mkdtemp(prefix='gv-build-', dir='/tmp')
        os.chmod(d, 0o755)
        out = os.path.join(d, 'vh-race' if race else 'vh')
        mod = os.path.join(d, 'go.mod')
        with open(os.path.join(HARNESS, 'go.mod')) as f:
            t = f.read()
        with open(mod, 'w') as f:
            f.write(t.replace('/repo/src', os.path.join(REPO, 'src')))
        cmd = ['go', 'build', '-modfile=' + mod] + (['-race'] if race else []) + ['-o', out, '.']
        r = subprocess.run(cmd, cwd=HARNESS, env=go_env(), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if r.returncode != 0:
            shutil.rmtree(d, ignore_errors=True)
            raise Machinery('harness does not build:\n' + r.stdout.decode(errors='replace')[-3000:])
        os.chmod(out, 0o755)
        _built[race] = out
        return out


def build_virt():
    """Build the driver in virtual time (its own program: what it needs of gotor is its own)."""
    with _build_lock:
        if 'virt' in _built:
            return _built['virt']
        d = tempfile.mkdtemp(prefix='gv-build-', dir='/tmp')
        os.chmod(d, 0o755)
        out = os.path.join(d, 'virt.test')
        mod = os.path.join(d, 'go.mod')
        with open(os.path.join(VIRT, 'go.mod')) as f:
            t = f.read()
        with open(mod, 'w') as f:
            f.write(t.replace('/repo/src', os.path.join(REPO, 'src')))
        r = subprocess.run(['go', 'test', '-c', '-vet=off', '-modfile=' + mod, '-o', out, '.'], cwd=VIRT, env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if r.returncode != 0:
            shutil.rmtree(d, ignore_errors=True)
            raise Machinery('driver does not build:\n' + r.stdout.decode(errors='replace')[-3000:])
        os.chmod(out, 0o755)
        _built['virt'] = out
        return out


def build_gotor():
    """Build the gotor command itself."""
    with _build_lock:
        if 'gotor' in _built:
            return _built['gotor']
        d = tempfile.mkdtemp(prefix='gv-build-', dir='/tmp')
        os.chmod(d, 0o755)
        out = os.path.join(d, 'gotor')
        r = subprocess.run(['go', 'build', '-o', out, '.'], cwd=os.path.join(REPO, 'src'), env=go_env(),
                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=800)
        if r.returncode != 0:
            shutil.rmtree(d, ignore_errors=True)
            raise Machinery('gotor does not build:\n' + r.stdout.decode(errors='replace')[-3000:])
        os.chmod(out, 0o755)
        _built['gotor'] = out
        return out


def drop_builds():
    for p in _built.values():
        shutil.rmtree(os.path.dirname(p), ignore_errors=True)
    _built.clear()


# ---------------------------------------------------------------------------
# running the harness

def _limits(mem, nofile):
    def f():
        if mem:
            resource.setrlimit(resource.RLIMIT_AS, (mem, mem))
        if nofile:
            resource.setrlimit(resource.RLIMIT_NOFILE, (nofile, nofile))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        os.setsid()
        os.setgroups([])
        os.setgid(NOBODY)
        os.setuid(NOBODY)
    return f


def spawn(argv, cwd, mem=12 << 30, nofile=0, **kw):
    """Start a program as an unprivileged user, in its own session."""
    env = {'PATH': '/usr/bin:/bin', 'HOME': cwd, 'TMPDIR': cwd, 'GOTRACEBACK': 'single'}
    env.update(kw.pop('env', {}))
    return subprocess.Popen(argv, cwd=cwd, env=env, preexec_fn=_limits(mem, nofile), **kw)


def scratch(ctx, name):
    d = tempfile.mkdtemp(prefix=name + '-', dir=ctx.dir)
    os.chown(d, NOBODY, NOBODY)
    return d


def _run_shard(ctx, binary, domain, scripts, case_ms, race, maxcrash, more=None):
    """Runs scripts in order; returns their records, in order."""
    d = scratch(ctx, 'w')
    inp, outp, cur = (os.path.join(d, n) for n in ('in', 'out', 'cur'))
    with open(inp, 'w') as f:
        for s in scripts:
            f.write(json.dumps(s) + '\n')
    open(outp, 'w').close()
    for p in (inp, outp):
        os.chown(p, NOBODY, NOBODY)
    recs, start, crashes = [], 0, 0
    env = {'GORACE': 'halt_on_error=1 exitcode=98'} if race else {}
    env.update(more or {})
    while start < len(scripts):
        with open(os.path.join(d, 'err'), 'wb') as err:
            p = spawn([binary, 'run', domain, inp, outp, cur, str(start), str(case_ms)], d,
                      mem=0 if race else 12 << 30, stdout=subprocess.DEVNULL, stderr=err, env=env)
            try:
                rc = p.wait(timeout=case_ms / 1000.0 * 3 + 600)
            except subprocess.TimeoutExpired:
                rc = -1
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        lines = open(outp).read().split('\n')[:-1]
        recs_done = len(lines)
        if rc == 0:
            if recs_done != len(scripts):
                raise Machinery('harness lost records (%d of %d)' % (recs_done, len(scripts)))
            break
        errtxt = open(os.path.join(d, 'err'), errors='replace').read()
        if rc == 96:
            raise Machinery('harness: ' + errtxt[-2000:])
        k = int(open(cur).read() or -1)
        if k != recs_done:
            raise Machinery('harness died at %s after %d records (rc %s): %s' % (k, recs_done, rc, errtxt[-2000:]))
        rec = dict(scripts[k])
        rec['x'] = {97: 'hang', 98: 'race'}.get(rc, 'crash')
        rec['why'] = (errtxt[:300] + ' ... ' + errtxt[-1500:] if len(errtxt) > 1900 else errtxt)
        with open(outp, 'a') as f:
            f.write(json.dumps(rec) + '\n')
        start = k + 1
        crashes += 1
        if crashes > maxcrash:
            break
    res = [json.loads(x) for x in open(outp).read().split('\n')[:-1]]
    shutil.rmtree(d, ignore_errors=True)
    return res


def drive(ctx, domain, scripts, case_ms=20000, race=False, shards=NPROC, maxcrash=3, env=None):
    """Execute the scripts against the real code; returns the records."""
    binary = build(race)
    shards = max(1, min(shards, len(scripts)))
    parts = [scripts[i::shards] for i in range(shards)]
    with ThreadPoolExecutor(shards) as ex:
        out = list(ex.map(lambda p: _run_shard(ctx, binary, domain, p, case_ms, race, maxcrash, env), parts))
    recs = []
    for i in range(max(len(p) for p in parts) if parts else 0):
        for o in out:
            if i < len(o):
                recs.append(o[i])
    return recs


def drive_virt(ctx, scripts, wall=120):
    """Run each script in virtual time, in a process of its own."""
    binary = build_virt()

    def one(s):
        d = scratch(ctx, 'v')
        inp, outp = os.path.join(d, 'in'), os.path.join(d, 'out')
        with open(inp, 'w') as f:
            json.dump(s, f)
        os.chown(inp, NOBODY, NOBODY)
        with open(os.path.join(d, 'err'), 'wb') as err:
            p = spawn([binary, '-test.run=TestVirt', '-test.timeout=0', inp, outp], d, stdout=subprocess.DEVNULL, stderr=err,
                      env={'GODEBUG': 'asynctimerchan=0'})
            try:
                rc = p.wait(timeout=wall)
            except subprocess.TimeoutExpired:
                rc = -1
            try:
                os.killpg(p.pid, signal.SIGKILL)
            except ProcessLookupError:
                pass
            p.wait()
        rec = {k: v for k, v in s.items() if k in ('op', 'evs', 'kind')}
        if rc == 0 and os.path.exists(outp):
            rec.update(json.load(open(outp)), x='ok')
        else:
            text = open(os.path.join(d, 'err'), errors='replace').read()
            if rc == 96:
                raise Machinery('driver: ' + text[-2000:])
            rec.update(x='hang' if rc == -1 else 'crash', why=text[:1500] + ' ... ' + text[-500:])
        shutil.rmtree(d, ignore_errors=True)
        return rec
    with ThreadPoolExecutor(NPROC) as ex:
        return list(ex.map(one, scripts))


# ---------------------------------------------------------------------------
# TLC

class TLCResult:
    pass


def tlc(ctx, module, cfg=None, env=None, workers=NPROC, timeout=600, args=(), heap='6g', jvm=()):
    meta = tempfile.mkdtemp(prefix='meta-', dir=ctx.dir)
    cfg = cfg or module + '.cfg'
    cmd = ['java', '-XX:+UseParallelGC', '-Xss256m', '-Xmx' + heap] + list(jvm) + ['-cp', CP, 'tlc2.TLC', '-workers', str(workers),
           '-metadir', meta, '-noGenerateSpecTE', '-config', cfg] + list(args) + [module + '.tla']
    e = {'PATH': os.environ.get('PATH', '/usr/bin:/bin'), 'HOME': '/tmp', 'OUT': ''}
    e.update(env or {})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise Machinery('TLC timed out on ' + module)
    shutil.rmtree(meta, ignore_errors=True)
    res = TLCResult()
    res.out = r.stdout.decode(errors='replace')
    res.rc = r.returncode
    res.wall = round(time.time() - t, 2)
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', res.out.replace(',', ',').replace('\u00a0', ''))
    res.generated, res.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    if not m:
        m = re.findall(r'([\d,]+) states generated, ([\d,]+) distinct states found', res.out)
        if m:
            res.generated, res.distinct = (int(x.replace(',', '')) for x in m[-1])
    m = re.search(r'violated by the initial state:\n(.*?)\n\n', res.out, re.S)
    if m:
        res.last = dict(re.findall(r'^(?:/\\ )?(\w+) = (.*)$', m.group(1), re.M))
        return res
    res.last = dict(re.findall(r'^(?:/\\ )?(\w+) = (.*)$', res.out[res.out.rfind('\nState '):], re.M)) if '\nState ' in res.out else {}
    return res


def model(ctx, module, cfg=None, expect=0, timeout=600, **kw):
    """Check a design model. Anything but the expected outcome is a broken check: models
    do not depend on the code."""
    r = tlc(ctx, module, cfg, timeout=timeout, **kw)
    if r.rc != expect:
        raise Machinery('model %s (%s): TLC exit %d\n%s' % (module, cfg, r.rc, r.out[-3000:]))
    ctx.states += r.distinct
    ctx.transitions += r.generated
    ctx.models.append({'module': module, 'cfg': cfg or module + '.cfg', 'distinct_states': r.distinct,
                       'generated': r.generated, 'seconds': r.wall})
    return r


def generate(ctx, module, cfg=None, **kw):
    """Check a model that also writes scripts for the real code; returns these."""
    out = ctx.path('gen-%s.ndjson' % (cfg or module))
    env = dict(kw.pop('env', {}), OUT=out)
    model(ctx, module, cfg, env=env, **kw)
    with open(out) as f:
        return [json.loads(x) for x in f]


def emitted(ctx, module, cfg=None, **kw):
    """Check a model that prints scripts for the real code; returns these, once each."""
    env = dict(kw.pop('env', {}), OUT='print')
    r = model(ctx, module, cfg, env=env, **kw)
    seen = sorted(set(re.findall(r'^"GEN (.*)"$', r.out, re.M)))
    return [json.loads(x.encode().decode('unicode_escape') if '\\u' in x else x.replace('\\"', '"').replace('\\\\', '\\')) for x in seen]


def write_trace(ctx, recs, name=None):
    fd, p = tempfile.mkstemp(prefix='trace-', suffix='.ndjson', dir=ctx.dir)
    with os.fdopen(fd, 'w') as f:
        for r in recs:
            f.write(json.dumps(r) + '\n')
    return p


def reject(ctx, module, recs, cfg=None, workers=NPROC, timeout=800, var='l', extra_env=None, args=()):
    """Let TLC judge the records. Returns None, or the index of a record it rejects
    (and the TLC result)."""
    if not recs:
        return None, None
    p = write_trace(ctx, recs)
    env = {'TRACE': p}
    env.update(extra_env or {})
    r = tlc(ctx, module, cfg, env=env, workers=workers, timeout=timeout, args=args)
    os.unlink(p)
    if r.rc == 0:
        return None, r
    if r.rc in (11, 12) and var in r.last:
        return int(r.last[var]) - 1, r
    m = re.search(r'While working on the initial state:\n(?:/\\ )?%s = (\d+)' % var, r.out)
    if r.rc == 75 and m:        # a record of a shape the specification does not know
        return int(m.group(1)) - 1, r
    raise Machinery('judge %s: TLC exit %d\n%s' % (module, r.rc, r.out[-3000:]))


def conform(ctx, module, domain, scripts, cfg=None, case_ms=20000, race=False, shards=NPROC,
            describe=None, classify=None, chunk=200000, retries=2, hard=False, drive_fn=None, extra_env=None, jworkers=NPROC):
    """Drive the scripts through the real code and let the specification judge what
    was recorded. `hard`: a rejected record is evidence by itself (it need not be
    reproduced); a crash always is."""
    t = time.time()
    dr = drive_fn or (lambda sc: drive(ctx, domain, sc, case_ms, race, shards))
    recs = dr(scripts)
    tw = round(time.time() - t, 2)
    judged = 0
    for r in recs:
        if classify:
            ctx.count(classify(r))
    i, undecided = 0, 0
    while i < len(recs):
        part = recs[i:i + chunk]
        bad, res = reject(ctx, module, part, cfg, workers=jworkers, extra_env=extra_env)
        if res:
            ctx.states += res.distinct
            ctx.transitions += res.generated
        if bad is None:
            judged += len(part)
            i += len(part)
            continue
        rec = part[bad]
        judged += bad
        i += bad + 1
        script = scripts[recs.index(rec)] if len(recs) == len(scripts) else None
        at = ' (event %s of it)' % res.last['k'] if 'k' in res.last else ''
        what = 'the specification %s rejects%s: %s' % (module, at, (describe or summary)(rec))
        again = None
        if script is None:
            script = {k: v for k, v in rec.items() if k not in ('x', 'why', 'out')}
        # "Certain" holds what is wrong whatever the timing
        confirmed = (hard or 'Invariant Certain is violated' in res.out) and rec.get('x') == 'ok'
        again = rec if confirmed else None
        for k in range(retries + 1):
            if confirmed:
                break
            r2 = dr([script] * (1 if k < retries else 16 if undecided < 6 else 1))
            b2, _r = reject(ctx, module, r2, cfg, workers=jworkers, extra_env=extra_env)
            if b2 is not None:
                confirmed, again = True, r2[b2]
        if not confirmed:
            if rec.get('x') in ('crash', 'race'):
                confirmed = True
        if confirmed:
            ctx.violation(what, {'script': script, 'record': again or rec})
            ctx.traces += judged
            ctx.jobs.append({'module': module, 'domain': domain, 'records': len(recs), 'rejected': 1})
            return False
        ctx.note('not reproduced (counted as undecided): ' + what[:500])
        undecided += 1
        if undecided > 20:
            raise Machinery('too many records that cannot be reproduced')
    ctx.traces += judged
    for r in recs[:1] + recs[len(recs) // 2:len(recs) // 2 + 1] + recs[-1:]:
        ctx.sample(r)
    ctx.jobs.append({'module': module, 'domain': domain, 'records': len(recs), 'drive_s': tw,
                     'total_s': round(time.time() - t, 2)})
    return True


def summary(rec):
    t = json.dumps(rec)
    return t if len(t) < 900 else t[:600] + ' ... ' + t[-300:]


def main(pid, fn, level='model_checking', assumptions=()):
    ctx = Ctx(pid, level)
    ctx.assumptions = list(assumptions)
    rc = 2
    try:
        fn(ctx)
        rc = 1 if ctx.violations else 0
        ctx.evidence()
        print('%s %s: %s; %d states, %d traces validated, %.1f s' % (
            pid, TIER, 'VIOLATED' if rc else 'held', ctx.states, ctx.traces, time.time() - ctx.t0))
    except Machinery as e:
        if ctx.violations:
            rc = 1
            ctx.evidence()
        print('# ERROR of the check: %s' % e, file=sys.stderr)
    finally:
        ctx.cleanup()
        drop_builds()
    sys.exit(rc)
