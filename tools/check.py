"""Decide one property against /repo's current source.

usage: check.py PROPERTY [--tier quick|thorough] [--seed N]

1. splice: the functions of /repo/src are cut out and annotated with the contracts in specs/ (tools/splice.py);
2. Verus discharges (or fails) every obligation of every function, caller against callee contract;
3. in parallel the replay harness (harness/) is built against the real crate and searches for a failing input; it
   replays counterexamples, and is the bounded stand-in for functions outside the verifier's reach.

exit 0: the property held on everything explored; exit 1 and a VIOLATION line: it is broken.
"""
import collections, json, os, re, resource, shutil, subprocess, sys, threading, time

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = '/repo'
sys.path.insert(0, HERE)
import rustlex, splice
from claims import CLAIMS, THEOREMS, BASE_TRUST, PROOF_MODULES

BUILD = os.path.join(VERIF, 'build')
T0 = time.time()
NCPU = os.cpu_count() or 4


def sh(cmd, timeout, cwd=None, env=None):
    try:
        p = subprocess.run(cmd, cwd=cwd, env=env, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=timeout,
                           stdin=subprocess.DEVNULL)
        return p.returncode, p.stdout.decode('utf-8', 'replace'), p.stderr.decode('utf-8', 'replace')
    except subprocess.TimeoutExpired as e:
        dec = lambda b: (b or b'').decode('utf-8', 'replace') if not isinstance(b, str) else b
        return 124, dec(e.stdout), dec(e.stderr)


class Harness:
    """the search and replay harness, linked with the real crate"""

    def __init__(self, prop, tier, seed):
        self.prop, self.tier, self.seed = prop, tier, seed
        self.bin = os.path.join(BUILD, 'harness', 'debug', 'search')
        self.built, self.log = None, ''
        self.result = None

    def build(self):
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'harness'), CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        rc, out, err = sh(['cargo', 'build', '--offline', '--quiet', '--bin', 'search'], 300, os.path.join(VERIF, 'harness'), env)
        self.built, self.log = rc == 0, err[-4000:]

    def conform(self):
        """the assumed contracts of core and heapless, tried on bounded inputs"""
        env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, 'harness'), CARGO_NET_OFFLINE='true')
        env.pop('RUSTFLAGS', None)
        rc, out, err = sh(['cargo', 'run', '--offline', '--quiet', '--bin', 'conform'], 300, os.path.join(VERIF, 'harness'), env)
        return out.strip() if rc == 0 else 'an assumed contract differs from the library: ' + err[-500:]

    def hints(self):
        """literals (and limits of narrow integer types) of /repo/src that the tree these checks were written for has less often:
        sizes and texts to try"""
        p = os.path.join(BUILD, f'hints-{self.prop}')
        try:
            base = json.load(open(os.path.join(VERIF, 'specs', 'baseline.json')))
            src = os.path.join(REPO, 'src')
            now = collections.Counter()
            for f in sorted(x for x in os.listdir(src) if x.endswith('.rs')):
                now += rustlex.literals(open(os.path.join(src, f)).read())
            had = {(k, v): n for k, v, n in base['literals']}
            new = sorted(((k, v) for (k, v), n in now.items() if n > had.get((k, v), 0)), key=lambda x: ((x in had), str(x)))
        except Exception:
            new = []
        open(p, 'w').write(''.join(f'{k} {v}\n' for k, v in new[:40]))
        return p

    def search(self, tier, secs):
        if not self.built:
            return None
        rc, out, err = sh([self.bin, self.prop, '--tier', tier, '--seed', str(self.seed), '--secs', str(secs),
                           '--hints', self.hints()],
                          secs + 120)
        r = dict(rc=rc, tier=tier, raw=out[-6000:], err=err[-2000:])
        for line in reversed(out.strip().split('\n')):
            try:
                r.update(json.loads(line))
                break
            except ValueError:
                continue
        r['found'] = rc == 1 and 'case_hex' in r
        if r['found']:
            r.setdefault('case', repr(bytes.fromhex(r['case_hex']))[:300])
            if 'ended by signal' in r.get('what', '') and sh([self.bin, self.prop, '--case', r['case_hex']], 120)[0] == 0:
                r['found'] = False                       # not with the larger stack of a single case
        if rc in (-6, -11, -4, -8) and 'case_hex' not in r:      # the real code brought the process down
            r.update(self.crash(tier, secs))
        return r

    def crash(self, tier, secs):
        """the search died (abort, stack overflow): find the input it was on"""
        trace = os.path.join(BUILD, f'trace-{self.prop}-{os.getpid()}')
        try:
            rc, out, err = sh([self.bin, self.prop, '--tier', tier, '--seed', str(self.seed), '--secs', str(secs),
                               '--trace', trace, '--hints', self.hints()], secs + 120)
            for i in range(8):
                b = open(f'{trace}.{i}', 'rb').read() if os.path.exists(f'{trace}.{i}') else b''
                if len(b) < 8:
                    continue
                case = b[8:8 + int.from_bytes(b[:8], 'little')].hex()
                rc, out, err = sh([self.bin, self.prop, '--case', case], 60)
                if rc < 0 or rc == 1:
                    return dict(found=True, case_hex=case, case=repr(bytes.fromhex(case))[:300],
                                what=out[-300:] if rc == 1 else f'the process ends with signal {-rc}: ' + err[-300:])
        finally:
            for i in range(8):
                if os.path.exists(f'{trace}.{i}'):
                    os.remove(f'{trace}.{i}')
        return {}

    def start(self, secs):
        def go():
            self.build()
            self.result = self.search(self.tier, secs)
        self.t = threading.Thread(target=go)
        self.t.start()

    def wait(self):
        self.t.join()
        return self.result


ERR = re.compile(r'^error(?:\[(E\d+)\])?: (.*)$')
LOC = re.compile(r'^\s*(?:-->|:::) (?:\S*/)?(\w+)\.rs:(\d+)')


def diagnostics(text):
    """(message, [(module, line)], block, error code) of every error Verus printed"""
    out, cur = [], None
    for line in text.split('\n'):
        m = ERR.match(line)
        if m or line.startswith('warning') or line.startswith('note: '):
            cur = None
            if m and not m.group(2).startswith(('aborting due', 'could not compile')):
                cur = [m.group(2), [], [line], m.group(1)]
                out.append(cur)
            continue
        if cur is not None:
            cur[2].append(line)
            m = LOC.match(line)
            if m:
                cur[1].append((m.group(1), int(m.group(2))))
            else:
                m = re.match(r'^\s*(\d+)\s*\|', line)
    return out


class Verifier:
    def __init__(self, prop, tier):
        self.dir = os.path.join(BUILD, f'gen-{prop}-{os.getpid()}')
        self.tier = tier
        self.forced = {}
        self.failed = {}       # key -> [diagnostic blocks]
        self.undecided = {}
        self.lost, self.info, self.json = [], None, None
        self.fatal = None
        self.rounds = 0

    def locate(self, mod, line):
        for f in self.info['fns']:
            if f['mod'] == mod and f['gen_start'] <= line <= f['gen_end']:
                return f['key']
        return None

    def run_verus(self, extra=()):
        def limit():
            resource.setrlimit(resource.RLIMIT_AS, (24 << 30, 24 << 30))
        p = subprocess.Popen(['timeout', '-k', '5', '420', 'verus', 'lib.rs', '--output-json', '--time-expanded',
                              '--multiple-errors', '8', *extra], cwd=self.dir, stdout=subprocess.PIPE,
                             stderr=subprocess.PIPE, stdin=subprocess.DEVNULL, preexec_fn=limit)
        out, err = p.communicate()
        out, err = out.decode('utf-8', 'replace'), err.decode('utf-8', 'replace')
        j = None
        i = out.find('{')
        if i >= 0:
            try:
                j = json.loads(out[i:])
            except ValueError:
                pass
        return p.returncode, j, err

    def run(self):
        try:
            self._run()
        except Exception as e:          # the tool could not read the source: no verdict from the verifier
            self.fatal = f'{type(e).__name__}: {e}'
        finally:
            shutil.rmtree(self.dir, ignore_errors=True)

    def _run(self):
        specs = os.path.join(VERIF, 'specs')
        for self.rounds in range(1, 9):
            self.info = splice.run(REPO, specs, self.dir, force_external=set(self.forced))
            rc, j, err = self.run_verus()
            diags = diagnostics(err)
            if rc in (124, 137):
                self.fatal = 'the verifier ran out of time'
                return
            self.json = j
            vr = (j or {}).get('verification-results') or {}
            # an error with a code is the compiler's (a name, a type, a borrow): no obligation was judged
            complete = ('verified' in vr and not vr.get('encountered-vir-error') and not any(d[3] for d in diags)
                        and (vr['verified'] or vr.get('errors')))
            if complete and rc == 0:
                return
            fails, hard = {}, {}
            for msg, locs, block, _ in diags:
                keys = [k for k in (self.locate(m, l) for m, l in locs) if k]
                where = keys[0] if keys else ('%s.rs:%d' % locs[0] if locs else '?')
                item = dict(message=msg, where=['%s.rs:%d' % x for x in locs], output='\n'.join(block).rstrip())
                if not complete:
                    hard.setdefault(where, []).append(item)
                elif 'rlimit' in msg or 'timed out' in msg:
                    self.undecided.setdefault(where, []).append(item)
                else:
                    fails.setdefault(where, []).append(item)
            if complete:
                self.failed = fails
                if not fails and not self.undecided:
                    self.fatal = 'the verifier failed without naming an obligation: ' + err[-1500:]
                return
            new = [k for k in hard if k not in self.forced and ' | ' in k]
            if not new:
                self.fatal = 'the verifier does not accept the source: ' + (err[-3000:] or f'exit {rc}')
                return
            for k in new:
                self.forced[k] = hard[k]
        self.fatal = 'too many functions outside the verifier\'s reach'


def is_plain(k, base, fns, lost):
    if k not in base or k not in fns or base[k]['calls'] is None or fns[k]['calls'] is None:
        return False
    if not set(fns[k]['calls']) <= set(base[k]['calls']):
        return False
    return (base[k]['light'] and fns[k]['light']
            or base[k]['frame'] == fns[k]['frame'] and not any(l[0] in (k, fns[k]['name']) for l in lost))


OPERATORS = {'==': {'eq', 'ne'}, '!=': {'eq', 'ne'}, '<': {'lt', 'partial_cmp'}, '>': {'gt', 'partial_cmp'},
             '<=': {'le', 'partial_cmp'}, '>=': {'ge', 'partial_cmp'}, '?': {'from'}, '[': {'index', 'index_mut'}}


def match_any(pats, key):
    return any(re.search(p, key) for p in pats)


def main():
    a = sys.argv[1:]
    prop = a[0]
    opt = lambda n, d: a[a.index(n) + 1] if n in a else d
    tier = opt('--tier', os.environ.get('VERIF_TIER', 'quick'))
    seed = int(opt('--seed', os.environ.get('VERIF_SEED', '1')))
    os.makedirs(BUILD, exist_ok=True)
    claim = CLAIMS[prop]
    h = Harness(prop, tier, seed)
    h.start(45 if tier == 'quick' else 240)
    v = Verifier(prop, tier)
    v.run()
    hr = h.wait()

    base = json.load(open(os.path.join(VERIF, 'specs', 'baseline.json')))['fns']
    fns = {f['key']: f for f in (v.info or {'fns': []})['fns']}
    inclosure = lambda k: ' | ' not in k or match_any(claim['fns'], k)
    closure = [k for k in fns if match_any(claim['fns'], k)]
    same_skel = lambda k: k in base and k in fns and base[k]['skel'] == fns[k]['skel']

    # A body without loops, closures or proof text leaves a proof nothing to be told: it fails when the code is wrong,
    # unless the code now calls something that has no contract. With them, the proof still fits as long as the loops, the
    # closures and the mutable variables are the same ones and every place that proof text hangs on is there.
    plain = lambda k: is_plain(k, base, fns, (v.info or {}).get('lost', []))

    # methods that are new and have no contract, or have gone (a derived impl written out, a written one derived): the
    # proofs of those that call one, by name or operator, say nothing
    fresh = {k.split(' | ')[-1] for k in fns if k not in base and not fns[k]['contract']}
    fresh |= {k.split(' | ')[-1] for k in base if k not in fns}
    fresh |= {op for op, names in OPERATORS.items() if fresh & names}
    sure = lambda k: not (fresh & set(fns[k]['calls'] or ()) if k in fns else
                          fresh if k.split('.')[0] in splice.MODS else ())

    bounded = []             # functions a bounded search stands in for on this run, with the reason
    alarms = {}
    if v.fatal:
        bounded.append(dict(function='(all)', reason=v.fatal[:1500]))
    for k, why in v.forced.items():
        if inclosure(k):
            bounded.append(dict(function=k, reason='outside the verifier\'s reach: ' + why[0]['message']))
    for k, why in v.undecided.items():
        if inclosure(k):
            bounded.append(dict(function=k, reason='the solver gave no verdict: ' + why[0]['message']))
    for k, why in v.failed.items():
        if not inclosure(k):
            continue
        if sure(k) and (' | ' not in k or (same_skel(k) or plain(k)) and not v.fatal):
            alarms[k] = why
        else:
            bounded.append(dict(function=k, reason='rewritten: its annotations no longer fit ('
                                + why[0]['message'] + ')'))
    for k in base:
        if k not in fns and match_any(claim['fns'], k) and not v.fatal:
            bounded.append(dict(function=k, reason='not found under this name'))
    probes = {}
    if tier == 'thorough' and not v.fatal and not v.failed and not v.forced:
        probes = vacuous(inclosure)
        for k in probes.get('accepted', []):
            bounded.append(dict(function=k, reason='a false assertion in it is accepted: its proof says nothing'))
    if (alarms or bounded) and not (hr and hr['found']) and h.built:
        r2 = h.search('thorough', 150)
        if r2:
            hr = r2
    found = bool(hr and hr['found'])

    status = 0
    rep = None
    if found or alarms:
        status = 1
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rep = os.path.join(VERIF, 'replay', f'{prop}.json')
        doc = dict(property=prop,
                   failed_obligations=[dict(function=k, source=fns.get(k, {}).get('src'), diagnostics=w)
                                       for k, w in list(alarms.items()) +
                                       [(k, w) for k, w in v.failed.items() if k not in alarms and inclosure(k)]])
        if found:
            doc.update(failing_input_hex=hr['case_hex'], failing_input=hr.get('case'), what=hr.get('what'),
                       replay_cmd=f'CARGO_TARGET_DIR={BUILD}/harness cargo run --offline --quiet '
                                  f'--manifest-path {VERIF}/harness/Cargo.toml -- {prop} --case {hr["case_hex"]}')
        json.dump(doc, open(rep, 'w'), indent=1)
        for k, w in alarms.items():
            print(f'failed obligation in {k} ({fns.get(k, {}).get("src", "?")}): {w[0]["message"]}')
        if found:
            print(f'failing input: {hr.get("case")!r:.3000}: {hr.get("what") or "":.1000}')
    for l in known(prop):
        print(f'KNOWN-FINDING: property={prop} {l}')
    if status:
        print(f'VIOLATION property={prop} replay={rep}' + ('' if found else ' no-failing-input-found'))

    evidence(prop, tier, seed, claim, v, h, hr, fns, closure, bounded, alarms, status, found, probes)
    if bounded:
        print(f'{prop}: bounded stand-in (not proved) for: ' + '; '.join(dict.fromkeys(b['function'] for b in bounded))[:1000])
    if not status:
        print(f'{prop}: held on everything explored')
    sys.stdout.flush()
    os._exit(status)


def known(prop):
    out = []
    p = os.path.join(VERIF, 'known-findings.txt')
    if os.path.exists(p):
        for l in open(p):
            m = re.match(r'known: property=(\S+) (.*)$', l.strip())
            if m and m.group(1) == prop:
                out.append(m.group(2))
    return out


def vacuous(inclosure):
    """false assertions at the head and the end of every function: which ones does the verifier accept?"""
    import vacuity
    known = {}
    for l in open(os.path.join(VERIF, 'specs', 'unreachable.txt')):
        m = re.match(r'(both|head|exit): (.*)$', l.strip())
        if m:
            known.setdefault(m.group(2), []).append(m.group(1))
    out = dict(rule='assert(false) at the head and at the end of every function in the closure must be refused', probes=0, refused=0,
               unreachable_by_design=0, accepted=[])
    for where in ('head', 'exit'):
        todo, refused, err = vacuity.probe(where)
        if todo is None:
            out['no_verdict_' + where] = err[-500:]
            continue
        for k in todo:
            if inclosure(k):
                out['probes'] += 1
                if k in refused:
                    out['refused'] += 1
                elif set(known.get(k, [])) & {'both', where}:
                    out['unreachable_by_design'] += 1
                else:
                    out['accepted'].append(k)
    return out


def scan():
    """every assumption written in the contracts, found mechanically"""
    out = []
    specs = os.path.join(VERIF, 'specs')
    for f in sorted(os.listdir(specs)):
        if not f.endswith(('.rs', '.vs')):
            continue
        lines = open(os.path.join(specs, f)).read().split('\n')
        for i, l in enumerate(lines):
            m = re.search(r'\baxiom fn (\w+)|\bassume_specification\b.*?\[(.*?)\]\(|\b(assume\(.*)|\b(admit)\(', l)
            if m:
                out.append(f'specs/{f}:{i + 1}: ' + ('axiom ' + m.group(1) if m.group(1) else 'assumed contract of ' + m.group(2) if m.group(2) else (m.group(3) or m.group(4)).strip()))
            elif 'external_body' in l:
                m = next((re.search(r'\b(?:fn|struct) (\w+)', x) for x in lines[i:i + 3] if re.search(r'\b(?:fn|struct) (\w+)', x)), None)
                out.append(f'specs/{f}:{i + 1}: body not verified: ' + (m.group(1) if m else '?'))
    return out


def evidence(prop, tier, seed, claim, v, h, hr, fns, closure, bounded, alarms, status, found, probes):
    brk, solver_ms = {}, 0
    try:
        for m in v.json['times-ms']['smt']['smt-run-module-times']:
            solver_ms += m['time-micros'] / 1000
            for f in m['function-breakdown']:
                brk.setdefault(m['module'], []).append(f)
    except (KeyError, TypeError):
        pass
    bad = set(v.failed) | set(v.undecided) | set(v.forced)
    verified, inherited, trusted_fns, plain = [], [], [], []
    for k in closure:
        f = fns[k]
        if not f['has_body'] or f['mode'] in ('external_body', 'external') or f['forced']:
            if f['has_body']:
                trusted_fns.append(k)
        elif k not in bad:
            (verified if f['contract'] else inherited if ' for ' in k else plain).append(k)
    lemmas = sorted({f['function'].replace('lib::', '') for m in PROOF_MODULES for f in brk.get(m, [])
                     if f.get('success')})
    attempted = [k for k in closure if fns[k]['has_body'] and k not in trusted_fns]
    obligations = 0 if v.fatal else len(attempted) + len(lemmas)
    failing = [k for k in attempted if k in bad]
    cov = dict(explanation='Verus discharges the obligations of every function listed in functions_under_contract, of trait methods (the contract is the '
                           'trait declaration\'s, or vstd\'s specification trait) and of functions_safety_only (no panic, no overflow, callee preconditions); functions in trusted_functions are '
                           'assumed, and the replay harness runs the real crate against an independent reference on bounded inputs',
               obligations=obligations, discharged=max(0, obligations - len(failing)) if not v.fatal else 0,
               checker_cmd='verus lib.rs --output-json --time-expanded (on the text spliced from /repo/src by tools/splice.py)',
               trusted_base=BASE_TRUST,
               counting='one obligation set per function of /repo in this property\'s closure given to the verifier, plus one per lemma '
                        'or specification function whose proof or termination the verifier checked',
               functions_under_contract=verified, functions_under_the_contract_of_their_trait=inherited, functions_safety_only=plain, lemmas=lemmas,
               theorems=THEOREMS.get(prop, []),
               trusted_functions=trusted_fns,
               back_end='Verus 0.2026.09.13 / Z3', solver_ms=round(solver_ms), verifier_rounds=v.rounds,
               crate_results=(v.json or {}).get('verification-results'),
               rewrites=(v.info or {}).get('rewrites'),
               bounded_stand_ins=bounded,
               failed_obligations=[dict(function=k, message=w[0]['message']) for k, w in alarms.items()])
    if hr:
        cov.update(evaluations=hr.get('evaluations', 0), distinct_nontrivial=hr.get('distinct', 0),
                   rule='inputs run by the replay harness against the real crate and an independent reference '
                        '(grammar-directed and mutated payloads, tier ' + hr['tier'] + '); distinct by content',
                   samples=hr.get('samples', [])[:5])
    if probes:
        cov['vacuity'] = probes
    if tier == 'thorough':
        cov['assumed_contracts_tested'] = 'bounded test, not a proof: ' + h.conform()
    if not h.built:
        cov['harness'] = 'did not build: ' + h.log[-500:]
    doc = dict(property=prop, tier=tier, seed=seed, level=claim['level'], coverage=cov,
               assumptions=claim.get('assumptions', []) + scan() + [f'trusted without proof: {k}' for k in trusted_fns],
               wall_s=round(time.time() - T0, 2), violations=1 if status else 0)
    os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
    json.dump(doc, open(os.path.join(VERIF, 'evidence', prop + '.json'), 'w'), indent=1)


if __name__ == '__main__':
    main()
