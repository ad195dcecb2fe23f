#!/usr/bin/env python3
"""check.py ID [--tier quick|thorough]   decide one property on /repo's current tree
   check.py --replay FILE                run a recorded counterexample against the real code
   check.py --setup                      build everything once"""
import concurrent.futures as cf, hashlib, json, os, re, shutil, subprocess, sys, tempfile, threading, time
V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VERIF_REPO', '/repo')
B = os.path.join(V, 'build')
ENGINE = os.path.join(V, 'engine/target/release/symx')
sys.path.insert(0, os.path.join(V, 'lib'))
import plan
CPUS = min(os.cpu_count() or 8, 8)
HOOK = '--cfg libmburs_verif '
# how the code under test is lowered to LLVM IR; the later ones are only used when the
# engine meets something it cannot interpret in the first
LOWER = {'O2': '-C no-vectorize-loops -C no-vectorize-slp', 'O1': '-C no-vectorize-loops -C no-vectorize-slp -C opt-level=1', 'Os': '-C no-vectorize-loops -C no-vectorize-slp -C opt-level=s'}

def sh(cmd, **k): return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, **k)
def env(flags):
    e = dict(os.environ)
    e.update(RUSTUP_TOOLCHAIN='stable-x86_64-unknown-linux-gnu', CARGO_NET_OFFLINE='true', RUSTFLAGS=flags, CARGO_TERM_COLOR='never')
    e.pop('CARGO_TARGET_DIR', None)
    return e
class Broken(Exception): pass

def build_engine():
    r = sh(['cargo', 'build', '-q', '--release', '--offline'], cwd=V + '/engine', env=env(''))
    if r.returncode: raise Broken('engine does not build:\n' + r.stdout[-3000:])
HOOKED = {}
def build_ir(low):
    for hook in (HOOK, ''):
        t = f'{B}/sym-{low}'
        r = sh(['cargo', 'rustc', '-q', '--offline', '--lib', '--profile', 'sym', '--target-dir', t, '--', '--emit=llvm-ir'], cwd=V + '/harness', env=env(hook + LOWER[low]))
        if r.returncode == 0:
            HOOKED[low] = bool(hook)
            return f'{t}/sym/deps/vharness.ll'
    raise Broken('the code under test does not build with the harnesses:\n' + r.stdout[-3000:])
def build_replay(profile='dev'):
    for hook in (HOOK, ''):
        r = sh(['cargo', 'build', '-q', '--offline', '--bin', 'replay', '--target-dir', B + '/nat'] + (['--release'] if profile == 'release' else []), cwd=V + '/harness', env=env(hook))
        if r.returncode == 0: return f'{B}/nat/{"release" if profile == "release" else "debug"}/replay'
    raise Broken('replay does not build:\n' + r.stdout[-3000:])

def native(binary, harness, hexin, params, secs=30):
    try: r = subprocess.run([binary, harness, hexin, ','.join(map(str, params))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=secs)
    except subprocess.TimeoutExpired: return 'hang', '', f'no answer in {secs} s', ''
    out = r.stdout.decode('utf8', 'replace')
    obs = next((l[4:] for l in out.splitlines() if l.startswith('OBS ')), '')
    fails = '; '.join(l[13:] for l in out.splitlines() if l.startswith('CHECK-FAILED '))
    err = r.stderr.decode('utf8', 'replace').strip()
    kind = {0: 'ok', 1: 'check', 3: 'assume'}.get(r.returncode, 'panic')
    return kind, obs, fails or err[:400], r.returncode

def panics_in_repo(binary, t, v):
    """the native panic passes through the repository although the frames of the path do not"""
    r = subprocess.run([binary, t.harness, v['input'], ','.join(map(str, t.params))], stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
    e = r.stderr.decode('utf8', 'replace')
    return f'panicked at {REPO}/' in e or f' at {REPO}/' in e

class Run:
    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.t0 = time.time()
        self.budget = 560 if tier == 'quick' else plan.THOROUGH_SECS
        self.ir = {}
        self.lock = threading.Lock()
        self.found = False
        self.results, self.errors, self.notes, self.viol = [], [], [], []
    def left(self): return self.budget - (time.time() - self.t0)
    def lowered(self, low):
        with self.lock:
            if low not in self.ir: self.ir[low] = build_ir(low)
            return self.ir[low]
    def engine(self, t, low, jobs):
        fd, out = tempfile.mkstemp(suffix='.json'); os.close(fd)
        secs = max(5, int(min(t.secs, self.left())))
        cmd = [ENGINE, self.ir[low], t.harness, '-p', ','.join(map(str, t.params)), '-j', str(jobs), '-t', str(secs), '--seed', str(self.seed), '--samples', str(t.samples), '--smt', '2', '--query-ms', '40000', '-o', out] + (['--max-insts', str(t.steps)] if t.steps else [])
        try: r = sh(cmd, timeout=secs + 30)
        except subprocess.TimeoutExpired:
            os.unlink(out)
            return {'errors': [], 'violations': [], 'incomplete': 'stopped: time limit', 'covers': {}, 'paths': 0}
        try: j = json.load(open(out))
        except Exception: j = None
        os.unlink(out)
        if j is None: return {'errors': [f'engine ended with {r.returncode}: {r.stdout[-600:]}'], 'violations': [], 'incomplete': None, 'covers': {}, 'paths': 0}
        return j
    def task(self, t, jobs):
        if self.found: return t, {'errors': [], 'violations': [], 'incomplete': 'not started: a violation was found before', 'covers': {}, 'paths': 0, 'lowering': None}
        if self.left() < 8: return t, {'errors': [], 'violations': [], 'incomplete': 'not started: out of time', 'covers': {}, 'paths': 0, 'lowering': None}
        j = self.engine(t, 'O2', jobs); j['lowering'] = 'O2'
        for low in ('O1', 'Os'):
            if not j['errors'] or j['violations'] or self.left() < 60 or all('solver returned unknown' in e for e in j['errors']): break
            self.lowered(low)
            k = self.engine(t, low, jobs)
            if not k['errors'] or k['violations']: j = k; j['lowering'] = low
        if any(v['kind'] == 'check' or not v['bt'].startswith('harness:') for v in j['violations']) and not plan_known(self.prop): self.found = True
        return t, j
    def go(self):
        tasks = [t for t in plan.tasks(self.prop) if self.tier == 'thorough' or not t.thorough]
        with cf.ThreadPoolExecutor(4) as ex:
            a, b, c = ex.submit(build_engine), ex.submit(self.lowered, 'O2'), ex.submit(build_replay)
            a.result(); b.result(); self.replay = c.result()
        self.t_build = time.time() - self.t0
        small, big = [t for t in tasks if not t.big], [t for t in tasks if t.big]
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for r in ex.map(lambda t: self.task(t, 1), small): self.results.append(r)
        for t in big: self.results.append(self.task(t, CPUS))
        self.judge()
    def judge(self):
        known = load_known()
        self.seen_known, self.traces, self.mismatch = {}, 0, []
        undecided = []
        for t, j in self.results:
            if j['errors']: undecided.append(f'{t.name()}: {j["errors"][0]}')
            if j['incomplete'] and not j['violations']: self.notes.append(f'{t.name()}: {j["incomplete"]} after {j["paths"]} paths')
            for v in j['violations']:
                if v['kind'] != 'check' and v['bt'].startswith('harness:') and not panics_in_repo(self.replay, t, v):
                    self.errors.append(f'{t.name()}: the harness itself fails: {v["msg"]} {v["input"]} {v["bt"]}')
                    continue
                kind, obs, text, rc = native(self.replay, t.harness, v['input'], t.params)
                self.traces += 1
                if kind in ('ok', 'assume'):
                    self.errors.append(f'{t.name()}: engine reports {v["kind"]} "{v["msg"]}" for {v["input"]} but the real code shows {kind}')
                    continue
                d = dict(property=self.prop, harness=t.harness, params=t.params, input=v['input'], engine=v['kind'] + ': ' + v['msg'], at=v['bt'], native=kind + ': ' + text)
                k = next((k for k in known if matches(k, d)), None)
                if k: self.seen_known[k['text']] = d
                else: self.viol.append(d)
            if not j['incomplete'] and not j['errors'] and not j['violations']:
                for c in t.covers:
                    if not j['covers'].get(c): self.errors.append(f'{t.name()}: never reached "{c}"')
        # an exploration the engine or the solver gives up on is left open; a check that leaves most of them open decides nothing
        (self.errors if len(undecided) * 2 > len(self.results) else self.notes).extend(undecided)
        # sampled paths run natively: same observations, nothing failing
        sm = []
        for t, j in self.results:
            if not j['violations'] and not j['errors']: sm += [(t, s) for s in j.get('samples', [])]
        sm = sm[:400]
        def one(x):
            t, (inp, obs) = x
            kind, o, text, rc = native(self.replay, t.harness, inp, t.params)
            return t, inp, obs, kind, o, text
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for t, inp, obs, kind, o, text in ex.map(one, sm):
                self.traces += 1
                if kind != 'ok' or o != obs: self.errors.append(f'{t.name()}: engine and native run differ on {inp}: {kind} {text} {o} / {obs}')
        self.samples = [dict(harness=t.harness, params=t.params, input=s[0], observed=s[1]) for t, s in sm[:: max(1, len(sm) // 12)][:12]]
        self.cross()
    def cross(self):
        """a few of the solver's unsat verdicts put to other solvers"""
        qs = []
        for t, j in self.results: qs += j.get('smt', [])
        cap = 12 if self.tier == 'quick' else 200
        qs = qs[:: max(1, len(qs) // cap)][:cap]
        self.crossed = dict(queries=0, agreed=0, timeouts=0)
        def one(q):
            fd, f = tempfile.mkstemp(suffix='.smt2')
            os.write(fd, q.encode()); os.close(fd)
            r = sh(['cvc5', '--tlimit=10000', f])
            os.unlink(f)
            return r.stdout.strip().splitlines()
        if not shutil.which('cvc5'): return
        with cf.ThreadPoolExecutor(CPUS) as ex:
            for o in ex.map(one, qs):
                self.crossed['queries'] += 1
                if 'unsat' in o: self.crossed['agreed'] += 1
                elif 'sat' in o: self.errors.append('cvc5 disagrees with an unsat verdict')
                else: self.crossed['timeouts'] += 1
    def bounds(self):
        """what was explored; a harness run with very many parameters in one entry with some of the descriptions"""
        by, out = {}, []
        for t, j in self.results: by.setdefault(t.harness, []).append((t, j))
        for h, l in by.items():
            done = lambda j: not j['incomplete'] and not j['errors']
            if len(l) <= 40:
                out += [dict(harness=h, params=t.params, covers=t.about(), lowering=j.get('lowering'), paths=j['paths'], wall_s=round(j.get('wall_s', 0), 2), complete=done(j), reached=j['covers']) for t, j in l]
                continue
            reached = {}
            for _, j in l:
                for k, v in j['covers'].items(): reached[k] = reached.get(k, 0) + v
            out.append(dict(harness=h, explorations=len(l), params=[','.join(map(str, t.params)) for t, _ in l], covers=[t.about() for t, _ in l[:: -(-len(l) // 20)]], lowering=sorted({j.get('lowering') or '' for _, j in l}),
                paths=sum(j['paths'] for _, j in l), wall_s=round(sum(j.get('wall_s', 0) for _, j in l), 2), complete=all(done(j) for _, j in l), not_complete=[t.name() for t, j in l if not done(j)], reached=reached))
        return out
    def evidence(self):
        n = lambda k: sum(j.get(k, 0) or 0 for _, j in self.results)
        funs, lines = set(), set()
        for _, j in self.results:
            funs |= {f'{a}: {b}' for a, b in j.get('functions', []) if a.startswith('src/') or a.startswith('libmbus')}
            lines |= {(a, b) for a, b in j.get('lines', []) if a.startswith('src/') or a.startswith('libmbus')}
        checks = {}
        for _, j in self.results:
            for k, (a, b) in j.get('checks', {}).items():
                x = checks.setdefault(k, [0, 0]); x[0] += a; x[1] += b
        cov = dict(states=n('paths'), transitions=n('forks'), traces_validated_against_impl=self.traces,
            samples=[json.dumps(s) for s in self.samples] or [json.dumps(v) for v in self.viol[:3]],
            exhaustive=not self.notes and not self.errors,
            instructions_interpreted=n('insts'), assertions=n('obligations'), assertions_closed_by_rewriting=n('obligations_const'), assertions_needing_a_decision=n('obligations_query'),
            assertions_by_message={k: dict(evaluated=a, symbolic=b) for k, (a, b) in sorted(checks.items())},
            decided_by_byte_domains=n('domain_decided'), solver_queries=n('queries'), solver_sat=n('sat'), solver_unsat=n('unsat'), solver_unknown=n('unknown'), solver_cache_hits=n('cache_hits'),
            solver_s=round(n('solver_us') / 1e6, 2), longest_query_s=round(max([j.get('max_query_us', 0) for _, j in self.results] or [0]) / 1e6, 2),
            most_symbolic_bytes_on_a_path=max([j.get('max_vars', 0) for _, j in self.results] or [0]), unsat_verdicts_put_to_cvc5=self.crossed,
            functions_encoded=sorted(funs), source_lines_reached=len(lines),
            bounds=self.bounds(),
            left_open=self.notes, outside=plan.OUTSIDE.get(self.prop, plan.OUTSIDE['*']), hook_enabled=HOOKED.get('O2'), build_s=round(self.t_build, 1))
        e = dict(property=self.prop, tier=self.tier, seed=self.seed, level='model_checking', coverage=cov, assumptions=plan.ASSUMPTIONS, wall_s=round(time.time() - self.t0, 1), violations=len(self.viol))
        os.makedirs(V + '/evidence', exist_ok=True)
        json.dump(e, open(f'{V}/evidence/{self.prop}.json', 'w'), indent=1)

def load_known():
    """lines: finding: property=ID harness=H check="text" input=REGEX | description;  fixed: lines suppress nothing"""
    out = []
    try: ls = open(V + '/known-findings.txt').read().splitlines()
    except FileNotFoundError: ls = []
    for l in ls:
        m = re.match(r'finding: property=(\S+) harness=(\S+) check="([^"]*)" input=(\S+) \| (.*)$', l)
        if m: out.append(dict(property=m[1], harness=m[2], check=m[3], input=m[4], text=m[5]))
    return out
def plan_known(prop): return any(k['property'] == prop for k in load_known())
def matches(k, d): return k['property'] == d['property'] and k['harness'] == d['harness'] and k['check'] in d['engine'] and re.fullmatch(k['input'], d['input']) is not None

def main():
    a = sys.argv[1:]
    if not a: print(__doc__); return 2
    if a[0] == '--setup':
        build_engine(); build_ir('O2'); build_replay(); print('built'); return 0
    if a[0] == '--replay':
        d = json.load(open(a[1]))
        for prof in ('dev', 'release'):
            r = native(build_replay(prof), d['harness'], d['input'], d['params'])
            print(f'{prof}: {r[0]} {r[2]}')
        return 0
    tier = a[a.index('--tier') + 1] if '--tier' in a else os.environ.get('VERIF_TIER', 'quick')
    r = Run(a[0], tier, int(os.environ.get('VERIF_SEED', '1') or 1))
    try: r.go()
    except Broken as e: print('ERROR', e); return 3
    r.evidence()
    for x in r.notes: print('INCOMPLETE', x)
    for t, d in r.seen_known.items(): print(f'KNOWN-FINDING: property={a[0]} {t}')
    if r.viol:
        os.makedirs(V + '/evidence/replay', exist_ok=True)
        for i, d in enumerate(r.viol[:8]):
            f = f'{V}/evidence/replay/{a[0]}-{i}.json'
            json.dump(d, open(f, 'w'), indent=1)
            print(f'{d["harness"]} {d["params"]} input {d["input"]}\n  engine: {d["engine"]}\n  at: {d["at"]}\n  native: {d["native"]}')
            print(f'VIOLATION property={a[0]} replay={f}')
        for x in r.errors[:5]: print('ERROR', x)
        return 1
    for x in r.errors[:20]: print('ERROR', x)
    if r.errors: return 3
    n = sum(j['paths'] for _, j in r.results)
    print(f'{a[0]} held{"" if not r.notes else " on what was explored"}: {len(r.results)} explorations, {n} paths, {sum(j.get("queries", 0) for _, j in r.results)} solver queries, {r.traces} paths replayed natively, {time.time() - r.t0:.0f} s (build {r.t_build:.0f} s)')
    return 0
if __name__ == '__main__': sys.exit(main())
