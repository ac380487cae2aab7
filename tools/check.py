#!/usr/bin/env python3
"""Decides one property: builds the IR of the code in /repo and of the harnesses, explores the
harnesses symbolically with ksym, replays counterexamples (and witnesses) against native builds,
and writes evidence/<id>.json.

usage: check.py C07 [--tier quick|thorough] | --setup | --all [--tier T]
exit: 0 held, 1 violated (VIOLATION line), 2 no answer"""
import fcntl, hashlib, json, os, shutil, subprocess, sys, tempfile, threading, time

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = '/repo'
B = os.path.join(V, '.build')
CPUS = min(8, os.cpu_count() or 1)
sys.path.insert(0, os.path.join(V, 'tools'))
ENTRY_RE = r'fn (h_[a-z0-9_]+)\('


def log(*a):
    print(*a, file=sys.stderr, flush=True)


def sh(cmd, env=None, cwd=None, what=''):
    e = dict(os.environ)
    for k in ('CARGO_TARGET_DIR', 'RUSTFLAGS', 'RUSTC_WRAPPER', 'RUSTUP_TOOLCHAIN'):
        e.pop(k, None)
    e.update(CARGO_NET_OFFLINE='true', CARGO_TERM_COLOR='never', RUSTUP_TOOLCHAIN='stable', CARGO_INCREMENTAL='0')
    e.update(env or {})
    r = subprocess.run(cmd, cwd=cwd, env=e, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        raise Fail(f'{what or cmd[0]} failed:\n' + r.stdout.decode(errors='replace')[-4000:])
    return r.stdout.decode(errors='replace')


class Fail(Exception):
    pass


def tree_hash(*roots):
    h = hashlib.sha256()
    for r in roots:
        files = []
        if os.path.isfile(r):
            files = [r]
        for d, ds, fs in os.walk(r):
            ds[:] = sorted(x for x in ds if x not in ('target', '.git', '.build'))
            files += [os.path.join(d, f) for f in fs]
        for f in sorted(files):
            h.update(f.encode() + b'\0')
            with open(f, 'rb') as x:
                h.update(x.read())
    return h.hexdigest()[:16]


class Build:
    """Everything derived from the working tree of /repo, cached by content."""

    def __init__(self):
        os.makedirs(B, exist_ok=True)
        self.lock = open(os.path.join(B, 'lock'), 'w')
        fcntl.flock(self.lock, fcntl.LOCK_EX)
        self.cargo = threading.Lock()
        self.src = tree_hash(f'{REPO}/src', f'{REPO}/Cargo.toml', f'{REPO}/Cargo.lock')
        self.har = tree_hash(f'{V}/harness')
        self.eng = tree_hash(f'{V}/engine')
        self.bin = None
        self.times = {}

    def bins(self):
        if not self.bin:
            self.bin = os.path.join(sh(['rustc', '--print', 'sysroot']).strip(), 'lib/rustlib/x86_64-unknown-linux-gnu/bin')
        return self.bin

    def timed(self, k, f, *a):
        t = time.time()
        r = f(*a)
        self.times[k] = round(time.time() - t, 2)
        return r

    def engine(self):
        o = f'{B}/ksym.{self.eng}'
        if not os.path.exists(o):
            sh(['cargo', 'build', '--release', '--offline', '--locked', '--target-dir', f'{B}/engine'], cwd=f'{V}/engine', what='engine build')
            shutil.copy2(f'{B}/engine/release/ksym', o + '.tmp')
            os.rename(o + '.tmp', o)
        return o

    IR_ENV = {
        'RUSTFLAGS': '-C embed-bitcode=yes -C save-temps',
        'CARGO_PROFILE_RELEASE_OPT_LEVEL': '0',
        'CARGO_PROFILE_RELEASE_OVERFLOW_CHECKS': 'true',
        'CARGO_PROFILE_RELEASE_DEBUG_ASSERTIONS': 'false',
        'CARGO_PROFILE_RELEASE_PANIC': 'abort',
        'CARGO_PROFILE_RELEASE_LTO': 'fat',
        'CARGO_PROFILE_RELEASE_CODEGEN_UNITS': '1',
        'CARGO_PROFILE_RELEASE_DEBUG': '0',
    }

    def bitcode(self, which):
        """the linked bitcode of the harness or of the application"""
        key = self.src + ('-' + self.har if which == 'harness' else '')
        o = f'{B}/{which}.{key}.bc'
        if os.path.exists(o):
            return o
        with self.cargo:
            t = f'{B}/ir'
            pre = 'harness-' if which == 'harness' else 'ti_tools-'
            deps = f'{t}/release/deps'
            if os.path.isdir(deps):
                for f in os.listdir(deps):
                    if f.startswith(pre) and (f.endswith('.bc') or f.endswith('.o')):
                        os.unlink(f'{deps}/{f}')
            env = dict(self.IR_ENV, CARGO_TARGET_DIR=t)
            if which == 'harness':
                src = f'{V}/harness/src/main.rs'
                os.utime(src)
                sh(['cargo', 'rustc', '--offline', '--locked', '--release', '--', '-C', 'link-args=-Wl,--unresolved-symbols=ignore-all'], env=env, cwd=f'{V}/harness', what='harness IR build')
            else:
                for d in ('debug', 'release'):
                    fp = f'{t}/{d}/.fingerprint'
                    if os.path.isdir(fp):
                        for f in os.listdir(fp):
                            if f.startswith('ti-tools-') and any(x.startswith('bin-') for x in os.listdir(f'{fp}/{f}')):
                                shutil.rmtree(f'{fp}/{f}')
                sh(['cargo', 'rustc', '--offline', '--locked', '--release', '--bin', 'ti-tools'], env=env, cwd=REPO, what='application IR build')
            c = [f for f in os.listdir(deps) if f.startswith(pre) and f.endswith('lto.after-restriction.bc')]
            if len(c) != 1:
                raise Fail(f'expected one linked bitcode file for {which}, found {c}')
            for old in os.listdir(B):
                if old.startswith(which + '.') and old.endswith('.bc'):
                    os.unlink(f'{B}/{old}')
            shutil.move(f'{deps}/{c[0]}', o)
            for f in os.listdir(deps):
                if f.startswith(pre) and (f.endswith('.bc') or f.endswith('.o')):
                    os.unlink(f'{deps}/{f}')
        return o

    def module(self, which, entries=()):
        key = self.src + '-' + self.eng + ('-' + self.har + '-' + hashlib.sha256(','.join(sorted(entries)).encode()).hexdigest()[:8] if which == 'harness' else '')
        o = f'{B}/{which}.{key}.ll'
        if os.path.exists(o):
            return o
        bc = self.bitcode(which)
        opt = self.bins() + '/opt'
        t = f'{B}/tmp.{which}.{os.getpid()}'
        api = ','.join(['main'] + sorted(entries))
        sh([opt, '-S', '-passes=internalize,globaldce,function(lower-invoke,simplifycfg),globaldce', f'-internalize-public-api-list={api}', bc, '-o', t + '1.ll'], what='opt')
        sh([self.engine(), 'prep', t + '1.ll', t + '2.ll'], what='prep')
        sh([opt, '-S', '-passes=globaldce,default<O1>,globaldce', t + '2.ll', '-o', t + '3.ll'], what='opt')
        for x in ('1', '2'):
            os.unlink(f'{t}{x}.ll')
        os.rename(t + '3.ll', o)
        return o

    def native(self):
        d = f'{B}/native.{self.src}.{self.har}'
        if not os.path.isdir(d):
            t = f'{B}/n'
            with self.ncargo():
                tmp = tempfile.mkdtemp(dir=B)
                os.utime(f'{V}/harness/src/main.rs')
                env = {'CARGO_TARGET_DIR': t, 'CARGO_PROFILE_DEV_DEBUG': '0'}
                sh(['cargo', 'build', '--offline', '--locked', '--features', 'native'], env=env, cwd=f'{V}/harness', what='native harness build')
                sh(['cargo', 'build', '--offline', '--locked', '--bin', 'ti-tools'], env=env, cwd=REPO, what='application build')
                shutil.copy2(f'{t}/debug/harness', tmp)
                shutil.copy2(f'{t}/debug/ti-tools', tmp)
                sh(['gcc', '-shared', '-fPIC', '-O1', '-w', '-o', f'{tmp}/shim.so', f'{V}/harness/shim.c', '-ldl'], what='shim')
                os.chmod(tmp, 0o755)
                for old in os.listdir(B):
                    if old.startswith('native.'):
                        shutil.rmtree(f'{B}/{old}')
                os.rename(tmp, d)
        return d

    def ncargo(self):
        if not hasattr(self, '_n'):
            self._n = threading.Lock()
        return self._n

    def clean(self):
        """keep only what belongs to the current sources"""
        keep = (self.src, self.eng)
        for f in os.listdir(B):
            if f.endswith('.ll') and (self.src not in f or self.eng not in f or (f.startswith('harness') and self.har not in f)):
                os.unlink(f'{B}/{f}')
            elif f.startswith('ksym.') and self.eng not in f:
                os.unlink(f'{B}/{f}')
            elif f.startswith('tmp'):
                p = f'{B}/{f}'
                shutil.rmtree(p) if os.path.isdir(p) else os.unlink(p)


class Replay:
    def __init__(self, build):
        self.d = build.native()
        self.root = tempfile.mkdtemp(prefix='vp-replay-')
        os.chmod(self.root, 0o755)
        for f in ('harness', 'ti-tools', 'shim.so'):
            shutil.copy2(f'{self.d}/{f}', self.root)
            os.chmod(f'{self.root}/{f}', 0o755)
        self.n = 0
        self.mu = threading.Lock()

    def run(self, entry, params, model, timeout=60):
        """one run of the harness over a concrete assignment, in a directory of its own and as an
        unprivileged user: (exit code, output)"""
        with self.mu:
            self.n += 1
            base = f'{self.root}/r{self.n}'
        w = f'{base}/a/b/w'
        os.makedirs(w)
        mf = f'{base}/model'
        with open(mf, 'w') as f:
            for k, v in params.items():
                f.write(f'param {k}={v}\n')
            for k, v in model.items():
                f.write(f'{k}={v}\n')
        for d in (base, f'{base}/a', f'{base}/a/b', w):
            os.chown(d, 65534, 65534)
        env = {'PATH': '/usr/bin:/bin', 'SYM_MODEL': mf, 'SYM_APP': f'{self.root}/ti-tools', 'SYM_SHIM': f'{self.root}/shim.so', 'SYM_LOG': f'{base}/log', 'HOME': w}
        try:
            r = subprocess.run([f'{self.root}/harness', entry], cwd=w, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                               timeout=timeout, user=65534, group=65534, extra_groups=[])
            c, o = r.returncode, r.stdout.decode(errors='replace')
        except subprocess.TimeoutExpired:
            c, o = 'timeout', ''
        shutil.rmtree(base, ignore_errors=True)
        return c, o

    def close(self):
        shutil.rmtree(self.root, ignore_errors=True)


def known_findings():
    """known_findings.txt: 'known: property=ID entry=E msg=<message> :: description'"""
    out = []
    p = f'{V}/known_findings.txt'
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known:'):
                head, desc = l[6:].strip().split(' :: ', 1)
                f = dict(x.split('=', 1) for x in head.split(' ', 2))
                f['desc'] = desc
                out.append(f)
    return out


def run_job(ksym, job, mods, tmp, i):
    out = f'{tmp}/o{i}.json'
    cmd = [ksym, 'run', '--module', mods['harness'], '--entry', job['entry'], '--jobs', str(job['cpus']), '--time', str(job['time']), '--out', out,
           '--frontier', str(job.get('frontier', 96)), '--max-viol', '3']
    if job['app']:
        cmd += ['--app', mods['app']]
    for k, v in job['params'].items():
        cmd += ['--arg', f'{k}={v}']
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, timeout=job['time'] + 120)
        if r.returncode or not os.path.exists(out):
            return {'error': f'engine ended with {r.returncode}: ' + r.stdout.decode(errors='replace')[-1500:]}
    except subprocess.TimeoutExpired:
        return {'error': 'engine did not end'}
    log(r.stdout.decode(errors='replace').strip()[-600:])
    return json.load(open(out))


def check(pid, tier):
    import checks
    t0 = time.time()
    spec = checks.PROPS[pid]
    jobs = []
    for j in spec['jobs']:
        if tier not in j.get('tiers', ('quick', 'thorough')):
            continue
        j = dict(j)
        j['params'] = dict(j.get('params', {}))
        if tier == 'thorough':
            j['params'].update(j.get('thorough', {}))
        j.setdefault('app', False)
        j.setdefault('cpus', 2)
        j.setdefault('reach', [])
        j['time'] = j.get('time', 300) if tier == 'quick' else j.get('thorough_time', 3000)
        if tier == 'thorough':
            j['cpus'] = j.get('thorough_cpus', j['cpus'])
            j['reach'] = j.get('thorough_reach', j['reach'])
        jobs.append(j)
    b = Build()
    err = []
    res = {}

    def guard(f, *a):
        def g():
            try:
                res[f.__name__ + ''.join(map(str, a[:1]))] = b.timed(f.__name__ + ''.join(map(str, a[:1])), f, *a)
            except Fail as e:
                err.append(str(e))
        th = threading.Thread(target=g)
        th.start()
        return th
    entries = sorted({j['entry'] for j in jobs})
    need_app = any(j['app'] for j in jobs)
    ksym = b.timed('engine', b.engine)
    ths = [guard(b.module, 'harness', entries), guard(b.native)]
    if need_app:
        time.sleep(0.2)
        ths.append(guard(b.module, 'app'))
    for t in ths:
        t.join()
    if err:
        # the tree does not build: nothing can be said about the property
        print(f'NO-ANSWER property={pid}: {err[0]}')
        return 2
    b.clean()
    mods = {'harness': res['moduleharness'], 'app': res.get('moduleapp')}
    nat = Replay(b)
    fcntl.flock(b.lock, fcntl.LOCK_UN)
    # later runs may rebuild; this one keeps its copies
    tmp = tempfile.mkdtemp(prefix='vp-check-')
    sem = threading.Condition()
    free = [CPUS]
    outs = [None] * len(jobs)

    def worker(i):
        j = jobs[i]
        n = min(j['cpus'], CPUS)
        j['cpus'] = n
        with sem:
            while free[0] < n:
                sem.wait()
            free[0] -= n
        try:
            outs[i] = run_job(ksym, j, mods, tmp, i)
        except Exception as e:  # noqa
            outs[i] = {'error': repr(e)}
        with sem:
            free[0] += n
            sem.notify_all()
    ws = [threading.Thread(target=worker, args=(i,)) for i in sorted(range(len(jobs)), key=lambda i: -jobs[i]['cpus'])]
    for w in ws:
        w.start()
    for w in ws:
        w.join()
    shutil.rmtree(tmp, ignore_errors=True)

    kf = known_findings()
    violations, known, trouble, samples = [], [], [], []
    tot = dict(paths=0, steps=0, forks=0, asserts=0, assert_queries=0, assert_unsat=0, assert_folded=0, queries=0, sat=0, unsat=0, solver_s=0.0, assert_table=0, confirm=0)
    funcs = set()
    validated = 0
    per = []
    for j, o in zip(jobs, outs):
        name = j['entry'] + ''.join(f' {k}={v}' for k, v in j['params'].items())
        if 'error' in o:
            trouble.append(f'{name}: {o["error"]}')
            continue
        for k in tot:
            tot[k] += o[k]
        funcs |= set(o['functions'])
        per.append({'harness': name, 'bounds': j.get('bounds', ''), 'paths': o['paths'], 'queries': o['queries'], 'assertions_unsat': o['assert_unsat'], 'assertions_folded': o['assert_folded'],
                    'solver_s': round(o['solver_s'], 2), 'wall_s': o['wall_s'], 'reached': o['reach'], 'violations': len(o['violations'])})
        tries = j.get('tries', 1)
        replayed = []
        for v in o['violations']:
            ok = False
            for _ in range(tries):
                c, t = nat.run(j['entry'], j['params'], v['model'])
                if v['kind'] == 'assert':
                    ok = c == 10
                else:
                    ok = c == 101 or (isinstance(c, int) and c < 0) or c == 'timeout'
                    ok = ok or c == 10
                if ok:
                    break
            k = next((k for k in kf if k['property'] == pid and k['entry'] == j['entry'] and k['msg'] == v['msg']), None)
            if ok and k:
                if k not in known:
                    known.append(k)
                continue
            if ok:
                violations.append((j, v, c, t))
            else:
                replayed.append((v['msg'], v['kind'], c, t[-300:], {k: x for k, x in v['model'].items()}))
        if replayed and not violations:
            trouble.append(f'{name}: counterexample not confirmed by the native build: {replayed[0]}')
        if o['timed_out']:
            trouble.append(f'{name}: out of time')
        if o['unsup']:
            trouble.append(f'{name}: not executable symbolically: {o["unsup"]}')
        if o['unknown'] or o['assert_unknown']:
            trouble.append(f'{name}: {o["unknown"]} solver queries undecided')
        if not o['violations']:
            for l in j['reach']:
                if l not in o['reach']:
                    trouble.append(f'{name}: the case "{l}" was never reached')
        for w in o['witnesses']:
            c, t = nat.run(j['entry'], j['params'], w['model'])
            if f'REACH {w["msg"]}\n' in t:
                validated += 1
            elif j.get('tries', 1) == 1 and not o['violations']:
                trouble.append(f'{name}: native run disagrees about the witness of "{w["msg"]}": {c} {t[-200:]} {w["model"]}')
            if len(samples) < 6:
                samples.append({'harness': name, 'case': w['msg'], 'input': compact(w['model'])})
    nat.close()
    os.makedirs(f'{V}/evidence', exist_ok=True)
    rc = 0
    for k in known:
        print(f'KNOWN-FINDING: property={pid} {k["desc"]}')
    if violations:
        rc = 1
        rp = f'{V}/evidence/{pid}.replay.json'
        json.dump([{'entry': j['entry'], 'params': j['params'], 'assertion': v['msg'], 'kind': v['kind'], 'model': v['model'], 'input': compact(v['model']), 'trace': v['notes'], 'stack': v['stack'], 'native_exit': c, 'native_output': t[-2000:]}
                   for j, v, c, t in violations[:10]], open(rp, 'w'), indent=1)
        for j, v, c, t in violations[:5]:
            print(f'  {j["entry"]}: {v["msg"]} [{v["kind"]}] input {compact(v["model"])}')
        print(f'VIOLATION property={pid} replay={rp}')
    elif trouble:
        rc = 2
        for t in trouble:
            print(f'NO-ANSWER property={pid}: {t}')
    for t in trouble if rc == 1 else []:
        log('note:', t)
    ev = {
        'property': pid, 'tier': tier, 'seed': int(os.environ.get('VERIF_SEED', '1')), 'level': 'model_checking',
        'coverage': {
            'states': tot['paths'], 'transitions': tot['steps'], 'traces_validated_against_impl': validated,
            'samples': samples or ['none'],
            'method': 'symbolic execution of the LLVM IR that rustc emits for /repo, one execution path at a time, every branch on symbolic data decided by an SMT (bit-vector) solver; each assertion is proved for all values on its path or refuted with a model that is replayed natively',
            'paths': tot['paths'], 'ir_instructions': tot['steps'], 'forks': tot['forks'],
            'assertions_evaluated': tot['asserts'], 'assertion_queries': tot['assert_queries'], 'assertion_queries_unsat': tot['assert_unsat'], 'assertions_true_without_query': tot['assert_folded'],
            'assertions_proved_per_path': tot['assert_table'], 'per_path_confirmation_queries': tot['confirm'],
            'solver_queries': tot['queries'], 'sat': tot['sat'], 'unsat': tot['unsat'], 'solver_s': round(tot['solver_s'], 2),
            'functions_encoded': sorted(funcs), 'bounds': spec['bounds'], 'outside': spec['outside'], 'harnesses': per, 'build_s': b.times,
            'known_findings': [k['desc'] for k in known], 'no_answer': trouble,
        },
        'assumptions': checks.ASSUMPTIONS + spec.get('assumptions', []),
        'wall_s': round(time.time() - t0, 2), 'violations': len(violations),
    }
    json.dump(ev, open(f'{V}/evidence/{pid}.json', 'w'), indent=1)
    print(f'{pid} {tier}: {["held", "VIOLATED", "no answer"][rc]}; {tot["paths"]} paths, {tot["queries"]} queries, {validated} witnesses replayed, {ev["wall_s"]} s (build {b.times})')
    return rc


def compact(model):
    import re
    d = {}
    for k, v in model.items():
        m = re.match(r'(.*)\[(\d+)\]$', k) or re.match(r'(.*)()$', k)
        d.setdefault(m.group(1), {})[int(m.group(2) or 0)] = v
    r = {}
    for k, x in d.items():
        b = bytes(x.get(i, 0) for i in range(max(x) + 1))
        r[k] = b.hex() if len(b) > 1 else b[0]
    return r


def main():
    a = sys.argv[1:]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in a:
        i = a.index('--tier')
        tier = a[i + 1]
        del a[i:i + 2]
    if a == ['--setup']:
        b = Build()
        b.engine()
        b.native()
        b.bitcode('harness')
        b.module('app')
        return 0
    import checks
    if a == ['--all']:
        rc = 0
        for p in checks.PROPS:
            r = subprocess.run([sys.executable, os.path.abspath(__file__), p, '--tier', tier]).returncode
            rc = max(rc, r)
        return rc
    return check(a[0], tier)


if __name__ == '__main__':
    sys.exit(main())
