"""Run of one check: proof obligations, then the oracle, then the verdict and the evidence."""
import json, os, subprocess, sys, threading, time, re
from . import gen, oracle, prove
from .props import PROPS

ROOT = gen.ROOT
EVID = os.path.join(ROOT, 'evidence')
BUILD = os.path.join(ROOT, 'build')


def build_vx():
    src = os.path.join(ROOT, 'tools', 'vx')
    p = subprocess.run(['cargo', 'build', '--offline', '--release', '-q'], cwd=src, capture_output=True, text=True)
    if not os.path.exists(gen.VX):
        raise RuntimeError('cannot build the extractor: ' + p.stderr[-2000:])


def contracts_for(cfg):
    sys.path.insert(0, os.path.join(ROOT, 'contracts'))
    import contracts
    if cfg == 'all' and not os.path.exists(os.path.join(ROOT, 'contracts', 'mime_contracts.py')):
        raise RuntimeError('no contracts for this configuration yet')
    return contracts.table(gen.CONFIGS[cfg])


def known(pid):
    out = []
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for l in open(p):
            if l.startswith('known: property=%s ' % pid):
                out.append(l[len('known: '):].strip())
    return out


def proof_jobs(pid):
    P = PROPS[pid]
    for cfg, roots in P['roots'].items():
        yield cfg, roots, P['mode'] == 'safety', P.get('cone', True)


def vacuity(res, cfg):
    """with `ensures false` added to every function, no proved function may still be proved"""
    path = os.path.join(BUILD, 'proof', 'vacuity_%s_%s.rs' % (cfg, res.mode))
    t = res.text
    out, pos = [], 0
    # module of every verified function: put `false` at the end of the body's reachable returns by an extra postcondition
    n = 0
    lines = t.split('\n')
    inmod = False
    i = 0
    names = set(res.functions)
    cur = None
    res_lines = []
    while i < len(lines):
        l = lines[i]
        m = re.match(r'pub mod m_(\w+) \{', l)
        if m:
            cur = m.group(1)
        m = re.match(r'pub fn (\w+)', l)
        if cur and m and m.group(1) == cur and cur in names:
            # header lines up to the line that is "{"
            j = i
            has = None
            while lines[j].strip() != '{':
                if lines[j].startswith('  ensures '):
                    has = j
                j += 1
            hdr = lines[i:j]
            if has is not None:
                hdr[has - i] = '  ensures false, ' + lines[has][len('  ensures '):]
            else:
                hdr.append('  ensures false,')
            res_lines += hdr
            i = j
            n += 1
            continue
        res_lines.append(l)
        i += 1
    open(path, 'w').write('\n'.join(res_lines))
    return path, n


C01_KINDS = re.compile(r'overflow|decreases|terminat|division|t_panic|unreachable|loop must have', re.I)
C02_KINDS = re.compile(r'utf8|readable', re.I)


def split_by_property(pid, r):
    """no panic and termination are C01, UTF-8 validity and memory are C02; an obligation that is not clearly one of them counts for both"""
    if pid not in ('C01', 'C02'):
        return
    mine, other = (C01_KINDS, C02_KINDS) if pid == 'C01' else (C02_KINDS, C01_KINDS)
    for k, v in list(r.failed.items()):
        keep = [t for t in v if mine.search(t) or not other.search(t)]
        if keep:
            r.failed[k] = keep
        else:
            del r.failed[k]
            r.unreached[k] = 'another property\'s obligation fails here: ' + v[0]


def replay(path):
    """run the failing input of a replay file against the code as it is now"""
    j = json.load(open(path))
    f = j.get('finding')
    if not f:
        print('no failing input; failed obligations:')
        for o in j['failed_obligations']:
            print('  [%s] %s' % (o['config'], o['function']))
            for t in o['obligations']:
                print('     ' + t)
        return 0
    binary, names, dropped = oracle.build(f['config'])
    os.makedirs(os.path.join(oracle.OD, 'cur'), exist_ok=True)
    r = oracle.replay_one(binary, f['target'], bytes.fromhex(f['input_hex']), {'C01': 1, 'C02': 2}.get(j['property'], 0))
    print('input of %s: %s' % (f['target'], f.get('input')))
    if r:
        print('fails: %s\n  expected %s\n  actual   %s' % r)
        return 1
    print('does not fail on this tree')
    return 0


def main(argv):
    pid = argv[1]
    if pid == 'replay':
        return replay(argv[2])
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    os.makedirs(EVID, exist_ok=True)
    os.makedirs(os.path.join(BUILD, 'proof'), exist_ok=True)
    rdir = os.path.join(EVID, 'replay')
    os.makedirs(rdir, exist_ok=True)
    build_vx()
    notes = []
    thorough = tier == 'thorough'
    cancel, found = threading.Event(), threading.Event()
    deadline = t0 + (420 if not thorough else 3000)
    jobs = list(proof_jobs(pid))
    results = [None] * len(jobs)

    def prover(i):
        cfg, roots, safety, cone = jobs[i]
        r = prove.Result(cfg, 'safety' if safety else 'full')
        r.selected, r.assumed, r.wall = (sorted(roots) if roots != '*' else []), [], 0
        try:
            C = contracts_for(cfg)
            r = prove.prove(cfg, C, sorted(C) if roots == '*' else roots, safety=safety, workdir=os.path.join(BUILD, 'proof', pid), cone=cone, deadline=deadline, cancel=cancel, thms=[pid])
        except Exception as e:
            r.base = 'machinery: %s' % str(e)[:500]
        results[i] = r

    ths = [threading.Thread(target=prover, args=(i,)) for i in range(len(jobs))]
    for t in ths:
        t.start()
    # the oracle: bounded runs of the real code against the same specification text, next to the proof
    orep = oracle.run(pid, tier, seed, False, [])
    if orep.finding:
        # a failing input: the obligations that fail are still reported when they are known soon
        soon = max(time.time() + 20, t0 + 200)
        for t in ths:
            t.join(max(0, soon - time.time()))
        cancel.set()
    for t in ths:
        t.join()
    for r in results:
        split_by_property(pid, r)
    failed = [(r, k, v) for r in results for k, v in r.failed.items()]
    undecided = [(r, k, v) for r in results for k, v in r.unreached.items()]
    bases = [r for r in results if r.base]
    n_obl = sum(r.verified + r.nerr for r in results)
    n_ok = sum(r.verified for r in results)
    if not orep.finding and (failed or undecided or bases):
        # longer, with other inputs
        more = oracle.run(pid, tier, seed + 1000, True, sorted(set(k for _, k, _ in failed + undecided)))
        orep = orep.join(more)

    lines, code = [], 0
    for k in known(pid):
        lines.append('KNOWN-FINDING: ' + k)
    violations = 0
    if orep.finding:
        path = os.path.join(rdir, '%s-input.json' % pid)
        json.dump(dict(property=pid, finding=orep.finding, failed_obligations=[dict(config=r.cfg, function=k, obligations=v) for r, k, v in failed],
                       replay_cmd='python3 run.py replay %s' % path), open(path, 'w'), indent=1)
        lines.append('VIOLATION property=%s replay=%s' % (pid, path))
        violations, code = 1, 1
    elif failed:
        path = os.path.join(rdir, '%s-obligation.json' % pid)
        json.dump(dict(property=pid, failed_obligations=[dict(config=r.cfg, mode=r.mode, function=k, obligations=v) for r, k, v in failed],
                       verifier_output=[r.log[-20000:] for r in results if r.failed], oracle=orep.summary()), open(path, 'w'), indent=1)
        for r, k, v in failed:
            notes.append('failed obligation: [%s/%s] %s: %s' % (r.cfg, r.mode, k, v[0]))
        lines.append('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, path))
        violations, code = len(failed), 1
    for r, k, why in undecided:
        notes.append('not proved on this tree (bounded stand-in only): [%s] %s: %s' % (r.cfg, k, why))
    for r in bases:
        notes.append('no proof on this tree (bounded stand-in only): [%s] %s' % (r.cfg, r.base))

    fns = {}
    for r in results:
        fns['%s/%s' % (r.cfg, r.mode)] = dict(verified_functions=r.functions, failed=sorted(str(k) for k in r.failed), bounded_only=r.unreached,
                                             assumed_contracts=r.assumed, property_theorems=getattr(r, 'theorems', []), spec_revealed_retry=r.spurious, base_error=r.base, wall_s=round(r.wall, 2),
                                             verifier_obligation_groups=r.verified, errors=getattr(r, 'nerr', 0), verifier_times_ms=short_times(r.times),
                                             extraction=('inlined helpers: ' + ', '.join(sorted(set(sum([r.data['fns'][k].get('inlined', []) for k in r.functions if k in r.data['fns']], []))))) if hasattr(r, 'data') else None)
    tb = []
    for r in results:
        for x in prove.trusted(r.text):
            if x not in tb:
                tb.append(x)
    cov = dict(obligations=n_obl, discharged=n_ok, checker_cmd=next((r.cmd for r in results if r.cmd), 'verus'), trusted_base=tb, backend='Verus 0.2026.09.13 / Z3',
               functions=fns)
    if True:
        cov.update(evaluations=orep.evals, distinct_nontrivial=orep.distinct, rule=orep.rule, samples=orep.samples, oracle=orep.summary())
    if tier == 'thorough':
        v = []
        for r in results:
            if r.base or not r.functions:
                continue
            path, n = vacuity(r, r.cfg)
            rc, js, errs, raw, cmd = gen.verus(path, deadline=time.time() + 600)
            vr = (js or {}).get('verification-results') or {}
            bad = set()
            txt = open(path).read().split('\n')
            for e in errs:
                for s in e['spans']:
                    for ln in range(s['line_start'] - 1, -1, -1):
                        m = re.match(r'pub mod m_(\w+) \{', txt[ln])
                        if m:
                            bad.add(m.group(1))
                            break
            vac = sorted(set(r.functions) - bad)
            v.append(dict(config=r.cfg, functions=n, still_proved_with_ensures_false=vac))
            if vac:
                notes.append('vacuity guard: proved even with ensures false: ' + ', '.join(vac))
        cov['vacuity'] = v
    level = 'proof'
    if n_ok == 0:
        level = 'exploration'
    json.dump(dict(property=pid, tier=tier, seed=seed, level=level, coverage=cov,
                   assumptions=ASSUMPTIONS, wall_s=round(time.time() - t0, 2), violations=violations, notes=notes), open(os.path.join(EVID, pid + '.json'), 'w'), indent=1)
    for n in notes:
        print(n)
    print('%s: %d obligation groups, %d discharged, %d functions under contract%s, %.0f s' % (pid, n_obl, n_ok, sum(len(r.functions) for r in results),
          ', oracle %d evaluations' % orep.evals, time.time() - t0))
    if n_ok == 0 and not code and not orep.evals:
        print('nothing could be checked')
        return 2
    for l in lines:
        print(l)
    return code


def short_times(t):
    try:
        return dict(total=t.get('total'), smt=t.get('smt', {}).get('total'))
    except Exception:
        return None


ASSUMPTIONS = [
    'the functions listed in trusted_base: contracts of std functions and of the textcode decoders, and the address-space axioms for joining adjacent borrowed strings',
    'the lowering of the crate\'s closures, combinators and iterator loops to first-order Rust by tools/vx (validated by running the real code against the same specification)',
    'lengths are machine integers and checked; specification integers are mathematical',
    'resource exhaustion (memory, stack of the allocator) is outside of the model',
]
