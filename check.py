#!/usr/bin/env python3
"""check.py PROPERTY [--tier quick|thorough]

Decides one property by deductive verification of the code in /repo:
  1. vx-extract copies the functions under contract out of /repo's current source
     (mechanically, see DESIGN.md) and attaches the contracts of contracts/*.vc;
  2. Verus discharges (or not) every obligation of these functions;
  3. all obligations of the functions the property depends on discharged: exit 0;
     otherwise the real crate is searched for a concrete failing input (replay/):
     found -> VIOLATION with that input; not found -> VIOLATION ... no-failing-input-found
     if an obligation of the property itself fails in a function that still has the
     structure the proof was written for, and else (code the verifier cannot read, a
     loop without its invariant, solver limits) the search is the bounded stand-in.
"""
import concurrent.futures, json, os, re, subprocess, sys, time

V = os.path.dirname(os.path.abspath(__file__))
REPO = os.environ.get('VX_REPO', '/repo')
CACHE = os.environ.get('VX_CACHE', os.path.join(V, '.cache'))
sys.path.insert(0, os.path.join(V, 'tools'))
from props import PROPS  # noqa

T0 = time.time()
VERIFY_SECS = 420


def sh(cmd, timeout=None, **kw):
    return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, **kw)


def quiet(cmd, timeout=None):
    """the code under test prints a lot on stdout"""
    return subprocess.run(cmd, stdout=subprocess.DEVNULL, stderr=subprocess.PIPE, text=True, timeout=timeout)


def log(*a):
    print('[%6.1fs]' % (time.time() - T0), *a, flush=True)


def build_extractor():
    tgt = os.path.join(CACHE, 'ext')
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Awarnings')
    r = sh(['cargo', 'build', '--offline', '--release', '-q', '--manifest-path', os.path.join(V, 'extract/Cargo.toml')], env=env)
    if r.returncode:
        print(r.stderr)
        sys.exit(3)
    return os.path.join(tgt, 'release/vx-extract')


def build_replay(bin='hmmcl-replay'):
    tgt = os.path.join(CACHE, 'rt')
    env = dict(os.environ, CARGO_TARGET_DIR=tgt, RUSTFLAGS='-Awarnings')
    man = os.path.join(V, 'replay/Cargo.toml')
    if REPO != '/repo':  # development only: a scratch copy of the tree
        d = os.path.join(CACHE, 'replay-src')
        sh(['rm', '-rf', d])
        sh(['cp', '-r', os.path.join(V, 'replay'), d])
        p = os.path.join(d, 'Cargo.toml')
        s = open(p).read().replace('/repo/', REPO + '/')
        open(p, 'w').write(s)
        man = p
    r = sh(['cargo', 'build', '--offline', '--release', '-q', '--bin', bin, '--manifest-path', man], env=env)
    if r.returncode:
        log('replay harness does not build against the current tree:\n' + r.stderr[-3000:])
        return None
    return os.path.join(tgt, 'release', bin)


EXPANDED = ('accts', 'hist', 'solv')   # units over the code that Anchor's macros generate


def expand():
    """macro-expand the crate in /repo (type-checked, build products outside /repo)"""
    out = os.path.join(CACHE, 'expanded.rs')
    if os.path.exists(out):
        os.remove(out)
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(CACHE, 'exp'), RUSTC_BOOTSTRAP='1', RUSTFLAGS='-Awarnings')
    r = sh(['cargo', 'rustc', '--offline', '--lib', '--profile', 'check', '--', '-Zunpretty=expanded'], env=env,
           cwd=os.path.join(REPO, 'programs/hmmcl-sandbox'), timeout=240)
    if r.returncode or 'fn try_accounts' not in r.stdout:
        log('the crate does not expand:\n' + r.stderr[-2000:])
        return None
    with open(out, 'w') as fh:
        fh.write(r.stdout)
    return out


class UnitRun:
    """One unit extracted and verified."""

    def __init__(self, ext, unit, probe=False):
        self.unit = unit
        self.ext = ext
        self.dir = os.path.join(CACHE, 'units')
        os.makedirs(self.dir, exist_ok=True)
        self.assume = {}       # key -> why it is not within the verifier's reach
        self.failed = {}       # key -> [failure]
        self.text_failed = []  # failures outside extracted functions
        self.broken = None     # the unit as a whole cannot be checked
        self.times = {}
        self.smt_ms = 0
        self.verified = 0
        self.obligations = []
        self.attempts = 0

    def extract(self, probe=False):
        rs = os.path.join(self.dir, self.unit + ('_probe' if probe else '') + '.rs')
        mp = os.path.join(self.dir, self.unit + ('_probe' if probe else '') + '.json')
        cmd = [self.ext, os.path.join(V, 'contracts', self.unit + '.vc'), '--repo', REPO, '--out', rs, '--map', mp]
        if self.unit in EXPANDED:
            cmd += ['--expanded', self.expanded]
        loc = os.path.join(V, 'contracts', 'locals', self.unit + '.json')
        if os.path.exists(loc):
            cmd += ['--locals', loc]
        if self.assume:
            cmd += ['--assume', ';;'.join(self.assume)]
        if probe:
            cmd += ['--probe']
        r = sh(cmd)
        if r.returncode not in (0, 2):
            print(r.stderr)
            sys.exit(3)
        return rs, json.load(open(mp))

    def fn_at(self, line):
        for f in self.map['fns']:
            if f['start'] <= line <= f['end']:
                return f
        return None

    def verus(self, rs, extra=()):
        cmd = ['verus', rs, '--num-threads', '8', '--output-json', '--time-expanded', '--multiple-errors', '4',
               '--no-report-long-running', '--error-format=json'] + list(extra)
        if not extra:
            self.cmd = ' '.join(cmd)
        left = T0 + VERIFY_SECS - time.time()
        if left < 20:
            return {}, [], None
        try:
            r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=left, cwd=self.dir)
        except subprocess.TimeoutExpired:
            return {}, [], None
        try:
            out = json.loads(r.stdout)
        except Exception:
            out = {}
        diags = []
        for l in r.stderr.splitlines():
            try:
                d = json.loads(l)
            except Exception:
                continue
            if d.get('level') == 'error' and not d['message'].startswith('aborting'):
                diags.append(d)
        return out, diags, r

    def run(self):
        keys_bad = {}
        if self.unit in EXPANDED and not self.expanded:
            self.broken = 'the macro-expanded crate is not available'
            return
        for round_ in range(8):
            rs, self.map = self.extract()
            self.rs = rs
            for key, e in self.map['errors']:
                if key == '':
                    self.broken = e
                    return
                keys_bad[key] = e
            out, diags, r = self.verus(rs)
            self.attempts += 1
            if r is None:
                self.broken = 'the verifier does not finish in time'
                return
            res = out.get('verification-results', {})
            compile_error = not res or res.get('encountered-vir-error') or any(d.get('code') for d in diags) \
                or (r.returncode and not res.get('errors') and diags)
            if compile_error:
                # which functions does the verifier not read?
                hit = set()
                for d in diags:
                    for s in self.spans(d):
                        f = self.fn_at(s)
                        if f and not f['assumed']:
                            hit.add((f['key'], d['message'][:200]))
                if not hit:
                    self.broken = 'verifier cannot read the unit: ' + (diags[0]['message'][:300] if diags else r.stderr[-300:])
                    return
                for k, m in hit:
                    self.assume[k] = m
                continue
            break
        else:
            self.broken = 'verifier cannot read the unit'
            return
        self.assume.update(keys_bad)
        self.absorb(out)
        fails = self.collect(diags)
        # solver luck: a function verified under any seed is verified
        jobs = [(k, seed) for seed in (11, 42) for k in fails if self.fn(k)] if len(fails) <= 6 else []
        with concurrent.futures.ThreadPoolExecutor(4) as ex:
            for k, ok in ex.map(lambda j: self.retry(rs, *j), jobs):
                if ok:
                    fails.pop(k, None)
        self.failed = fails

    def retry(self, rs, key, seed):
        name = key.rsplit('::', 1)[1]
        out, diags, r = self.verus(rs, ['--verify-root', '--verify-function', '*%s' % name, '--smt-option', 'smt.random_seed=%d' % seed])
        self.attempts += 1
        v = out.get('verification-results', {})
        return key, bool(v) and v.get('verified', 0) > 0 and v.get('errors', 1) == 0 and r.returncode == 0

    def spans(self, d):
        prim = [s['line_start'] for s in d['spans'] if s['is_primary']]
        rest = [s['line_start'] for s in d['spans'] if not s['is_primary']]
        return prim + rest

    def absorb(self, out):
        t = out.get('times-ms', {})
        smt = t.get('smt', {})
        self.smt_ms = smt.get('smt-run', 0)
        self.verified = out['verification-results']['verified']
        for m in smt.get('smt-run-module-times', []):
            for f in m.get('function-breakdown', []):
                self.obligations.append((f['function'].split('::', 1)[1], f['mode:'], f.get('time-micros', 0), f['success']))

    def collect(self, diags):
        fails = {}
        for d in diags:
            lines = self.spans(d)
            if not lines:
                continue
            # the obligation belongs to the function whose body is being checked:
            # the exit of a postcondition, the call of a precondition
            prim = [s['line_start'] for s in d['spans'] if s['is_primary']]
            f, clause = None, None
            if 'postcondition' in d['message'] or 'invariant' in d['message']:
                order = [l for l in lines if l not in prim] + prim
            else:
                order = prim + [l for l in lines if l not in prim]
            for l in order:
                f = self.fn_at(l)
                if f:
                    break
            for l in lines:
                for g in self.map['fns']:
                    for c in g['clauses']:
                        if c['start'] <= l <= c['end']:
                            clause = (g['key'], c)
            own = clause[1] if clause and f and clause[0] == f['key'] else None
            item = dict(message=d['message'], line=lines[0], rendered=d['rendered'],
                        clause=own['text'] if own else None, labels=own['labels'] if own else [],
                        rlimit='rlimit' in d['message'] or 'Resource limit' in d['message'])
            # that loops end is a property of its own in some units
            if self.map.get('term') and d['message'].startswith('decreases not satisfied'):
                item['labels'] = [self.map['term']]
            key = f['key'] if f else '<text line %d>' % lines[0]
            fails.setdefault(key, []).append(item)
        return fails

    def fn(self, key):
        for f in self.map['fns']:
            if f['key'] == key:
                return f
        return None

    def labels(self, f):
        s = set()
        for c in f['clauses']:
            s.update(c['labels'])
        if f['group']:
            s.update(f['group'].split(','))
        return s

    def closure(self, roots):
        seen, todo = set(), list(roots)
        byname = {}
        for f in self.map['fns']:
            byname.setdefault(f['key'].rsplit('::', 1)[1], []).append(f['key'])
            byname.setdefault(f['name'], []).append(f['key'])
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.add(k)
            f = self.fn(k)
            if not f or f['assumed']:
                continue
            for c in f['calls']:
                todo += byname.get(c, [])
        return seen

    def probe(self):
        """vacuity: no function under contract may have a contradictory context"""
        rs, mp = self.extract(probe=True)
        out, diags, _ = self.verus(rs, ['--multiple-errors', '0'])
        want = {i: f['key'] for i, f in enumerate(mp['fns']) if not f['assumed'] and any(c['kind'] == 'ensures' for c in f['clauses'])}
        got = set()
        text = open(rs).read().splitlines()
        bad = set()
        for d in diags:
            for l in self.spans(d):
                for i, f in enumerate(mp['fns']):
                    if f['start'] <= l <= f['end']:
                        bad.add(f['key'])
        return sorted(k for k in want.values() if k not in bad), len(want)


def baseline(unit):
    p = os.path.join(V, 'contracts', 'baseline', unit + '.json')
    return json.load(open(p)) if os.path.exists(p) else {}


def trusted(rs, discharged_later):
    t = set()
    src = open(rs).read()
    lines = src.splitlines()
    for i, l in enumerate(lines):
        if 'assume_specification' in l:
            m = re.search(r'\[\s*([^\]]+)\]', l)
            name = m.group(1) if m else l.strip()
            short = re.split(r'::', name.strip())[-1]
            # only what the code or a proof of this unit uses
            if any(re.search(r'\b%s\s*\(' % re.escape(short), x) for x in lines if 'assume_specification' not in x and 'spec fn' not in x and 'proof fn' not in x and not x.lstrip().startswith(('ensures', 'requires'))):
                t.add('assumed contract of ' + name)
        if 'external_body' in l and 'proved in unit' not in l and not any(a <= i + 1 <= b for a, b in discharged_later):
            for j in range(i, min(i + 4, len(lines))):
                m = re.search(r'\b(fn|struct)\s+(\w+)', lines[j])
                if m:
                    t.add('trusted shim ' + m.group(2))
                    break
        if '// trusted:' in l:
            t.add('assumed' + l.split('// trusted', 1)[1] + ' -- ' + l.split('//')[0].strip())
        if re.search(r'\badmit\(\)|\bassume\(', l):
            t.add('assume at generated line %d: %s' % (i + 1, l.strip()))
    return sorted(t)


def main():
    pid = sys.argv[1]
    tier = os.environ.get('VERIF_TIER', 'quick')
    if '--tier' in sys.argv:
        tier = sys.argv[sys.argv.index('--tier') + 1]
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    P = PROPS[pid]
    ext = build_extractor()
    undecided, direct, deps = [], [], []   # (unit, fn, why)
    roots_next = None
    functions, bounded = [], []
    trusted_base = set()
    probes = {}
    expanded = expand() if any(u in EXPANDED for u in P['units']) else None
    units = [UnitRun(ext, u) for u in P['units']]
    for U in units:
        U.expanded = expanded
    log('verifying units', ' '.join(P['units']))
    with concurrent.futures.ThreadPoolExecutor(len(units)) as ex:
        list(ex.map(lambda U: U.run(), units))
    for n, u in enumerate(P['units']):
        U = units[n]
        if U.broken:
            undecided.append((u, '*', U.broken))
            log('unit', u, 'not decided:', U.broken)
            continue
        base = baseline(u)
        if n == 0 or roots_next is None:
            roots = [f['key'] for f in U.map['fns'] if pid in U.labels(f)]
        else:
            roots = [f['key'] for f in U.map['fns'] if f['key'] in roots_next]
        # every function the property is stated over must still be there
        for k in (base or {}):
            if pid in base[k].get('labels', []) and U.fn(k) is None:
                undecided.append((u, k, 'function under contract is gone'))
        for k, why in U.assume.items():
            if U.fn(k) is None and k not in [x[1] for x in undecided]:
                undecided.append((u, k, why))
        clo = U.closure(roots)
        roots_next = {k for k in clo if U.fn(k) and U.fn(k)['assumed'] and k not in U.assume}
        for k in sorted(clo):
            f = U.fn(k)
            if f is None:
                continue
            mine = pid in U.labels(f)
            if k in U.assume:
                undecided.append((u, k, U.assume[k]))
                continue
            if f['assumed']:
                continue
            functions.append('%s:%d %s' % (f['file'], f['line'], k))
            for item in U.failed.get(k, []):
                b = base.get(k)
                same = b is not None and b['loops'] == f['loops'] and not f['lost_hints'] \
                    and b['inlined'] == f['inlined']
                labelled = pid in item['labels'] or (not item['labels'] and mine and pid != U.map.get('term'))
                if item['rlimit'] or not same:
                    undecided.append((u, k, ('solver limit: ' if item['rlimit'] else 'changed structure: ') + item['message'] + (' [%s]' % item['clause'] if item['clause'] else '')))
                elif labelled:
                    direct.append((u, k, item))
                else:
                    deps.append((u, k, item))
        for k, items in U.failed.items():
            if k.startswith('<text'):
                undecided.append((u, k, items[0]['message']))
        log('unit %s: %d verified, %d functions with failed obligations, %.1f s solver' % (u, U.verified, len(U.failed), U.smt_ms / 1000))
    for n, U in enumerate(units):
        if U.broken:
            continue
        later = {f['key'] for W in units[n + 1:] if not W.broken for f in W.map['fns'] if not f['assumed']}
        trusted_base.update(trusted(U.rs, [(f['start'], f['end']) for f in U.map['fns'] if f['assumed'] and f['key'] in later]))
    proved = not (undecided or direct or deps)
    os.makedirs(os.path.join(V, 'evidence'), exist_ok=True)
    rep_dir = os.path.join(CACHE, 'replays')
    os.makedirs(rep_dir, exist_ok=True)
    rep = os.path.join(rep_dir, pid + '.txt')
    for p in (rep, rep + '.stats'):
        if os.path.exists(p):
            os.remove(p)
    ev = {'property': pid, 'tier': tier, 'seed': seed}
    violations = 0
    code = 0
    stats = None
    if proved and tier == 'thorough':
        for U in units:
            bad, cnt = U.probe()
            probes[U.unit] = {'functions_probed': cnt, 'vacuous': bad}
            log('vacuity probe of %s: %d functions, vacuous: %s' % (U.unit, cnt, bad))
            if bad:
                undecided += [(U.unit, k, 'contradictory contract context') for k in bad]
        proved = not undecided
    if not proved or tier == 'thorough':
        for (u, k, i) in direct:
            log('FAILED obligation of %s in %s: %s [%s]' % (pid, k, i['message'], i['clause']))
        for (u, k, i) in deps:
            log('failed obligation of a function %s relies on: %s: %s [%s]' % (pid, k, i['message'], i['clause']))
        for (u, k, w) in undecided:
            log('not decided: %s: %s' % (k, w))
        secs = P.get('search', 60)
        if tier == 'thorough':
            secs = P.get('search_thorough', 240)
        log('searching the real code for a failing input, %d s' % secs)
        binp = build_replay(P.get('bin', 'hmmcl-replay'))
        if binp:
            try:
                r = quiet([binp, 'search', pid, str(seed), str(secs), str(10 ** 12), rep], timeout=secs + 120)
                if r.returncode in (0, 1) and os.path.exists(rep + '.stats'):
                    stats = json.load(open(rep + '.stats'))
                else:
                    log('search failed:', r.returncode, r.stderr[-500:])
            except subprocess.TimeoutExpired:
                log('search timed out')
        if stats and stats['found'] and 'terminate' in stats['what'] and P.get('partial'):
            log('an operation did not end; that is another property')
            stats['found'] = False
        if stats and stats['found']:
            # never trust a finding that does not replay
            rr = quiet([binp, 'run', pid, rep], timeout=120) if 'terminate' not in stats['what'] else None
            if rr is None or rr.returncode == 1:
                log('failing input: ' + stats['what'])
                violations = 1
                with open(rep, 'a') as fh:
                    for (u, k, i) in direct + deps:
                        fh.write('# failed obligation in %s (%s): %s [%s]\n' % (k, u, i['message'], i['clause']))
                print('VIOLATION property=%s replay=%s' % (pid, rep))
                code = 1
        if code == 0 and direct:
            with open(rep, 'w') as fh:
                fh.write('# property %s: obligations the verifier does not accept (no failing input found)\n' % pid)
                for (u, k, i) in direct + deps:
                    fh.write('# unit %s function %s\n%s\n' % (u, k, i['rendered']))
            violations = 1
            print('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rep))
            code = 1
    nob = sum(len(U.obligations) for U in units)
    nok = sum(1 for U in units for o in U.obligations if o[3])
    clauses = sum(1 for U in units if not U.broken for f in U.map['fns'] for c in f['clauses'] if pid in c['labels'])
    cov = {
        'obligations': nob, 'discharged': nok,
        'obligation_unit': 'one solver query group per function body, lemma or loop of the extracted units',
        'property_clauses': clauses,
        'checker_cmd': '; '.join(getattr(U, 'cmd', '') for U in units),
        'back_end': 'Verus (Z3)', 'solver_time_s': round(sum(U.smt_ms for U in units) / 1000, 2),
        'functions_under_contract': functions,
        'trusted_base': sorted(trusted_base) + P.get('trusted', []),
        'extraction_rewrites': sorted({r for U in units if not U.broken for f in U.map['fns'] if any(x.endswith(f['key']) for x in functions) for r in f['rewrites']})[:60],
        'vacuity_probe': probes or 'thorough tier only',
        'verifier_attempts': sum(U.attempts for U in units),
    }
    if stats:
        cov['replay_search'] = stats
    if proved or direct:
        ev['level'] = 'proof' if proved else 'exploration'
    else:
        ev['level'] = 'exploration'
    if not proved:
        cov['evaluations'] = (stats or {}).get('evaluations', 0)
        cov['distinct_nontrivial'] = (stats or {}).get('distinct_nontrivial', 0)
        cov['rule'] = 'bounded stand-in: random and boundary cases on the real crate against an exact oracle; non-trivial: the oracle constrained the result'
        cov['samples'] = (stats or {}).get('samples', [])
        cov['not_proved'] = ['%s %s: %s' % (a, b, c if isinstance(c, str) else c['message']) for a, b, c in undecided + direct + deps]
        cov['bounded_standin'] = code == 0
        if code == 0:
            print('property %s: not proved on this tree; bounded search found nothing (bounded, not a proof)' % pid)
    ev['coverage'] = cov
    ev['assumptions'] = P.get('assumptions', [])
    ev['wall_s'] = round(time.time() - T0, 2)
    ev['violations'] = violations
    with open(os.path.join(V, 'evidence', pid + '.json'), 'w') as fh:
        json.dump(ev, fh, indent=1)
    kf = os.path.join(V, 'known_findings.txt')
    if os.path.exists(kf):
        for l in open(kf):
            m = re.match(r'known: property=(\S+) (.*)', l)
            if m and m.group(1) == pid:
                print('KNOWN-FINDING: property=%s %s' % (pid, m.group(2).strip()))
    if code == 0 and proved:
        print('property %s: all obligations discharged' % pid)
    sys.exit(code)


if __name__ == "__main__":
    main()
