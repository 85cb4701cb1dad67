"""Shared machinery of the checks: builds the harness from /repo's current tree, runs it on a list of
operations, hands the recorded behaviour to TLC (trace validation against the TLA+ specification), runs
TLC on the bounded models, and writes evidence.

Outcome rules: exit 0 = everything explored is accepted, exit 1 + VIOLATION line = the specification
rejects recorded behaviour of the real code (confirmed by a second recording), exit 2 = the machinery
itself failed (TLC error, build error...)."""
import ctypes, fcntl, glob, hashlib, json, os, random, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('KT_REPO', '/repo')
SPEC = os.path.join(VERIF, 'spec')
JAR = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'
NPROC = os.cpu_count() or 4

class CheckError(Exception):
    pass

def log(*a):
    print(*a, flush=True)

# ---------------------------------------------------------------- build

LIBS = ['utils', 'kana', 'kanji', 'quiz', 'stats']
CXXFLAGS = ('-std=c++20 -O1 -g1 -include cstdint -Dishexnumber=isxdigit -D_GLIBCXX_ASSERTIONS '
            '-fsanitize=address -fno-omit-frame-pointer -w')
TARGETS = {  # name -> (libs, extra sources)
    'h1': (['utils', 'kana'], ['{V}/harness/h1.cpp', '{V}/harness/h1_*.cpp']),
    'h2': (LIBS, ['{V}/harness/h1.cpp', '{V}/harness/h2_*.cpp']),
    'kanaConvert': (['utils', 'kana'], ['{R}/apps/convertMain.cpp']),
    'kanjiFormat': (['utils', 'kana'], ['{R}/apps/formatMain.cpp']),
    'kanjiQuiz': (LIBS, ['{R}/apps/quizMain.cpp']),
    'kanjiStats': (LIBS, ['{R}/apps/statsMain.cpp']),
}

def _tree_hash(paths):
    h = hashlib.sha256(CXXFLAGS.encode())
    for top in paths:
        for d, dirs, files in sorted(os.walk(top)):
            dirs.sort()
            for f in sorted(files):
                if f.endswith(('.cpp', '.h', '.hpp', '.cc', '.inl', '.ipp')):
                    q = os.path.join(d, f)
                    h.update(q.encode()); h.update(open(q, 'rb').read())
    return h.hexdigest()[:16]

def build(*names):
    """compile the named targets from /repo's working tree; returns the build directory"""
    bdir = os.path.join(VERIF, 'build')
    os.makedirs(bdir, exist_ok=True)
    key = _tree_hash([REPO + '/libs', REPO + '/apps', VERIF + '/harness'])
    with open(os.path.join(bdir, 'lock'), 'w') as lk:
        fcntl.flock(lk, fcntl.LOCK_EX)
        for old in sorted(glob.glob(bdir + '/t_*'), key=os.path.getmtime)[:-3]:
            if not old.endswith(key): shutil.rmtree(old, ignore_errors=True)
        d = os.path.join(bdir, 't_' + key)
        os.makedirs(d, exist_ok=True)
        os.utime(d)
        inc = ' '.join(f'-I{REPO}/libs/{l}/include' for l in LIBS)
        n = [f'cxxflags = {CXXFLAGS} {inc} -I{VERIF}/harness',
             'rule cxx', '  command = g++ $cxxflags -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
             'rule link', '  command = g++ -fsanitize=address $in -o $out -lpthread']
        libobjs = {}
        for l in LIBS:
            libobjs[l] = []
            for s in sorted(glob.glob(f'{REPO}/libs/{l}/src/**/*.cpp', recursive=True)):
                o = f'{l}_' + os.path.relpath(s, f'{REPO}/libs/{l}/src').replace('/', '_')[:-4] + '.o'
                libobjs[l].append(o); n.append(f'build {o}: cxx {s}')
        # kanjiStats under the race monitor
        n += [f'tsflags = {CXXFLAGS.replace("-fsanitize=address", "-fsanitize=thread")} {inc}', 'rule cxxts', '  command = g++ $tsflags -MMD -MF $out.d -c $in -o $out', '  depfile = $out.d', '  deps = gcc',
              'rule linkts', '  command = g++ -fsanitize=thread $in -o $out -lpthread']
        ts = []
        for s in [x for l in ('utils', 'kana', 'kanji', 'stats') for x in sorted(glob.glob(f'{REPO}/libs/{l}/src/**/*.cpp', recursive=True))] + [f'{REPO}/apps/statsMain.cpp']:
            o = 'ts_' + os.path.relpath(s, REPO).replace('/', '_')[:-4] + '.o'; ts.append(o); n.append(f'build {o}: cxxts {s}')
        n.append('build kanjiStats.ts: linkts ' + ' '.join(ts))
        for t, (ls, srcs) in TARGETS.items():
            objs = []
            for s in [x for q in srcs for x in sorted(glob.glob(q.format(V=VERIF, R=REPO)))]:
                o = t + '_' + os.path.basename(s)[:-4] + '_m.o'; objs.append(o); n.append(f'build {o}: cxx {s}')
            if objs:
                n.append(f'build {t}: link ' + ' '.join(objs + [x for l in ls for x in libobjs[l]]))
        open(d + '/build.ninja', 'w').write('\n'.join(n) + '\n')
        r = subprocess.run(['ninja', '-C', d, *names], capture_output=True, text=True)
        if r.returncode:
            raise CheckError('build failed:\n' + r.stdout[-4000:] + r.stderr[-2000:])
    return d

# ---------------------------------------------------------------- harness protocol

def hx(b):
    if isinstance(b, str): b = b.encode('utf-8', 'surrogateescape')
    return b.hex() or '-'

def unhx(s):
    return b'' if s == '-' else bytes.fromhex(s)

ENV = dict(os.environ, ASAN_OPTIONS='detect_leaks=0:abort_on_error=0:exitcode=99', LC_ALL='C.UTF-8')

def run_sessions(exe, sessions, timeout=120, shards=NPROC, env=None, max_crashes=10):
    """sessions: list of lists of operation lines (a line is a list of fields). Every session is run by one
    harness process (which serves many sessions in turn); returns per session the list of JSON replies. A crash or
    hang is the reply {"crash": why} of the line that caused it and ends that session."""
    from concurrent.futures import ThreadPoolExecutor
    n = max(1, min(shards, len(sessions)))
    parts = [sessions[i::n] for i in range(n)]
    with ThreadPoolExecutor(n) as ex:
        res = list(ex.map(lambda q: _run_part(exe, q, timeout, env, max_crashes), parts))
    out = [None] * len(sessions)
    for i in range(n):
        out[i::n] = res[i]
    return out

def _run_part(exe, sessions, timeout, env, max_crashes):
    out = []
    crashes = 0
    while len(out) < len(sessions):
        todo = sessions[len(out):]
        lines = [l for q in todo for l in q]
        data = '\n'.join('\t'.join(map(str, l)) for l in lines) + '\n'
        p = subprocess.Popen([exe], stdin=subprocess.PIPE, stdout=subprocess.PIPE, stderr=subprocess.PIPE, env=env or ENV,
                             cwd=workdir())
        why = None
        try:
            o, e = p.communicate(data.encode(), timeout=timeout)
        except subprocess.TimeoutExpired:
            p.kill(); o, e = p.communicate(); why = 'hang'
        got = []
        for x in o.decode('utf-8', 'replace').split('\n')[:-1]:
            try: got.append(json.loads(x, strict=False))
            except ValueError: got.append({'E': 'badreply', 'm': x[:200]})
        if len(got) < len(lines):
            if why is None:
                m = re.search(rb'(AddressSanitizer: [\w-]+|[^\n]*Assertion [^\n]*|terminate called[^\n]*)', e)
                why = f'exit {p.returncode} ' + (m.group(1).decode(errors='replace') if m else e[:100].decode(errors='replace'))
            got.append({'crash': why.strip()})
            crashes += 1
        i = 0
        for q in todo:
            if i >= len(got): break
            part = got[i:i + len(q)]
            i += len(q)
            out.append(part)
        if crashes > max_crashes:
            out += [[] for _ in range(len(sessions) - len(out))]
    return out

_libc = ctypes.CDLL(None, use_errno=True)
def respect_permissions():
    """in a child before exec: file permissions apply to root too"""
    _libc.prctl(24, 1, 0, 0, 0) # PR_CAPBSET_DROP CAP_DAC_OVERRIDE
# ---------------------------------------------------------------- TLC

class TlcResult:
    pass

def tlc(module, cfg=None, env=None, workers=NPROC, timeout=600, mem='6g', extra=(), deadlock=False, jvm=()):
    """run TLC on spec/<module>.tla; returns TlcResult(rc, out, distinct, generated, prints, error)"""
    meta = tempfile.mkdtemp(prefix='tlc_', dir=workdir())
    cmd = ['java', '-XX:+UseParallelGC', f'-Xmx{mem}', '-Xss16m', '-Dfile.encoding=UTF-8', '-Dstdout.encoding=UTF-8',
           '-Dsun.stdout.encoding=UTF-8', '-Djava.io.tmpdir=' + meta, *jvm, '-cp', JAR, 'tlc2.TLC', '-workers', str(workers),
           '-config', (cfg or module) + '.cfg', '-metadir', meta, '-noGenerateSpecTE', *extra, module + '.tla']
    if not deadlock: cmd.insert(-1, '-deadlock')
    e = dict(os.environ); e.update({k: str(v) for k, v in (env or {}).items()})
    t = time.time()
    try:
        r = subprocess.run(cmd, cwd=SPEC, capture_output=True, env=e, timeout=timeout)
    except subprocess.TimeoutExpired:
        shutil.rmtree(meta, ignore_errors=True)
        raise CheckError(f'TLC timed out on {module} after {timeout}s')
    shutil.rmtree(meta, ignore_errors=True)
    R = TlcResult()
    R.rc = r.returncode
    R.out = r.stdout.decode('utf-8', 'replace') + r.stderr.decode('utf-8', 'replace')
    R.wall = time.time() - t
    m = re.findall(r'(\d+) states generated, (\d+) distinct states found', R.out)
    R.generated, R.distinct = (int(m[-1][0]), int(m[-1][1])) if m else (0, 0)
    R.error = R.out[max(R.out.find('Error:'), 0):][:3000]
    R.ok = 'Model checking completed. No error has been found.' in R.out
    return R

_TLASTR = re.compile(r'^"(.*)"$')

def prints(R, tag):
    """lines PrintT(tag \\o json) prints: returns the JSON values"""
    res = []
    for l in R.out.splitlines():
        m = _TLASTR.match(l)
        if m and m.group(1).startswith(tag):
            s = m.group(1)[len(tag):]
            s = re.sub(r'\\(.)', lambda q: {'n': '\n', 't': '\t', 'r': '\r', 'f': '\f'}.get(q.group(1), q.group(1)), s)
            try: res.append(json.loads(s))
            except ValueError: res.append({'raw': s})
    return res

# ---------------------------------------------------------------- working directory

_wd = None
def workdir():
    global _wd
    if _wd is None:
        os.makedirs(VERIF + '/work', exist_ok=True)
        _wd = tempfile.mkdtemp(prefix='w_', dir=VERIF + '/work')
        import atexit
        if not os.environ.get('KT_KEEP'):
            atexit.register(lambda: shutil.rmtree(_wd, ignore_errors=True))
    return _wd

# ---------------------------------------------------------------- a check

class Check:
    def __init__(self, pid, tier):
        self.id = pid
        self.tier = tier
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.rng = random.Random(f'{self.seed}-{pid}')
        self.t0 = time.time()
        if os.path.exists(f'{VERIF}/evidence/{pid}.replay.json'): os.unlink(f'{VERIF}/evidence/{pid}.replay.json')
        self.cov = dict(states=0, transitions=0, traces_validated_against_impl=0, steps_validated=0, samples=[])
        self.notes = []
        self.violations = []
        self.known = load_known(pid)
        self.known_hit = set()
        self.thorough = tier == 'thorough'

    def n(self, quick, thorough):
        return thorough if self.thorough else quick

    # -- spec side
    def model(self, module, cfg=None, env=None, **kw):
        """exhaustive TLC run of a bounded model of the specification"""
        R = tlc(module, cfg, env, **kw)
        if not R.ok:
            raise CheckError(f'TLC on model {cfg or module} failed:\n' + R.error + '\n...\n' + R.out[-1500:])
        self.cov['states'] += R.distinct
        self.cov['transitions'] += R.generated
        self.cov.setdefault('models', {})[cfg or module] = dict(distinct=R.distinct, generated=R.generated, wall_s=round(R.wall, 1))
        return R

    # -- binding
    def validate(self, module, sessions, cfg=None, env=None, chunk=None, label='', timeout=800, mem='6g'):
        """TLC trace validation. sessions: list of dict(init=..., steps=[...]); returns list of mismatches
        (session index, step index, expected JSON)."""
        if not sessions: return []
        path = os.path.join(workdir(), f'trace_{module}_{len(os.listdir(workdir()))}.ndjson')
        total = 0
        with open(path, 'w', encoding='utf-8') as f:
            for s in sessions:
                total += len(s['steps']) + 1
                f.write(json.dumps(s, ensure_ascii=False, separators=(',', ':')) + '\n')
        e = dict(env or {}); e['TRACE'] = path
        # an in-memory queue: the disk queue would not keep non-ASCII strings intact
        R = tlc(module, cfg, e, timeout=timeout, mem=mem, jvm=('-Dtlc2.tool.queue.IStateQueue=StateDeque',))
        bad = prints(R, 'MISMATCH ')
        if not R.ok:
            i = max(R.out.find('Error:'), 0)
            raise CheckError(f'TLC trace run {module} failed:\n' + R.out[i:i + 3000] + '\n...\n' + R.out[-1500:])
        if not bad and R.distinct != total:
            raise CheckError(f'{module}: {R.distinct} trace states, expected {total}\n' + R.out[-1500:])
        self.cov['states'] += R.distinct
        self.cov['transitions'] += R.generated
        self.cov['traces_validated_against_impl'] += len(sessions)
        self.cov['steps_validated'] += total - len(sessions)
        self.cov.setdefault('traces', {})[label or module] = dict(sessions=len(sessions), steps=total - len(sessions), wall_s=round(R.wall, 1))
        if not self.cov['samples'] or label:
            s = sessions[min(len(sessions) - 1, 1)]
            smp = json.dumps(dict(trace=label or module, init=s.get('init'), steps=s['steps'][:3]), ensure_ascii=False)
            self.cov['samples'].append(smp[:600])
        os.unlink(path)
        return [(b['s'] - 1, b['k'] - 1, b.get('exp')) for b in bad]

    def check(self, module, record, inputs, cfg=None, env=None, label='', key=None, **kw):
        """record(inputs) -> sessions; validate; a rejected session is recorded again and must be rejected
        again before it is reported."""
        sessions = record(inputs)
        bad = self.validate(module, sessions, cfg, env, label=label, **kw)
        if not bad: return
        seen = {}
        for s, k, exp in bad:
            seen.setdefault(s, (k, exp))
        idx = sorted(seen)[:40]
        again = record([inputs[i] for i in idx])
        saved = {k: (v.copy() if isinstance(v, (dict, list)) else v) for k, v in self.cov.items()}
        bad2 = self.validate(module, again, cfg, env, label=label, **kw)
        self.cov = saved
        first = {}
        for s, k, exp in bad2: first.setdefault(s, []).append((k, exp))
        for s, l in sorted(first.items()):
            for k, exp in l:
                step = again[s]['steps'][k]
                kn = self.match_known(step)
                if kn:
                    self.known_hit.add(kn); continue
                self.violations.append(dict(spec=module, label=label, init=again[s].get('init'), step_index=k, observed=step,
                                            expected=exp, prefix=again[s]['steps'][max(0, k - 6):k], input=inputs[idx[s]] if isinstance(inputs[idx[s]], (list, dict, str, int)) else repr(inputs[idx[s]])))
                break
        if not bad2: self.notes.append(f'{label}: rejection not repeated, ignored')

    def match_known(self, step):
        for k in self.known:
            if all(json.dumps(step.get(f), ensure_ascii=False) == json.dumps(v, ensure_ascii=False) for f, v in k['match'].items()):
                return k['what']
        return None

    # -- end
    def finish(self, level='model_checking', assumptions=()):
        wall = round(time.time() - self.t0, 1)
        ev = dict(property=self.id, tier=self.tier, seed=self.seed, level=level, coverage=self.cov,
                  assumptions=list(assumptions) + self.notes, wall_s=wall, violations=len(self.violations))
        ev['coverage']['samples'] = ev['coverage']['samples'][:8]
        os.makedirs(VERIF + '/evidence', exist_ok=True)
        with open(f'{VERIF}/evidence/{self.id}.json', 'w') as f:
            json.dump(ev, f, indent=1, ensure_ascii=False)
        for w in sorted(self.known_hit): log(f'KNOWN-FINDING: property={self.id} {w}')
        log(f"{self.id} {self.tier}: {self.cov['states']} states, {self.cov['transitions']} transitions, "
            f"{self.cov['traces_validated_against_impl']} traces / {self.cov['steps_validated']} steps validated, {wall}s")
        if self.violations:
            p = f'{VERIF}/evidence/{self.id}.replay.json'
            with open(p, 'w') as f: json.dump(self.violations[:20], f, indent=1, ensure_ascii=False, default=str)
            v = self.violations[0]
            log('first rejected step:', json.dumps(v, ensure_ascii=False, default=str)[:1500])
            log(f'VIOLATION property={self.id} replay={p}')
            return 1
        return 0

def load_known(pid):
    res = []
    p = VERIF + '/known_findings.jsonl'
    if os.path.exists(p):
        for l in open(p):
            l = l.strip()
            if l.startswith('{'):
                d = json.loads(l)
                if d.get('property') == pid and 'match' in d: res.append(d)
    return res
