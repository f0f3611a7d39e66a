"""Proof of a set of functions: assembly, verification, retries, classification of what is not discharged."""
import os, re, subprocess, time, json
from . import gen

EXTRA = 'use gx2'
OBLIGATION = re.compile(r'postcondition not satisfied|precondition not satisfied|invariant not satisfied|underflow/overflow|assertion failed|decreases not satisfied|'
                        r'could not prove termination|possible division by zero|unreachable|loop must have a decreases|index out of bounds|cannot show|bit ?shift|'
                        r'failed this postcondition|might not be allowed|assertion not satisfied|termination|recommendation not met|not all errors may have been reported|split', re.I)
RLIMIT = re.compile(r'rlimit|Resource limit|timed out|timeout', re.I)


class Result:
    def __init__(self, cfg, mode):
        self.cfg, self.mode = cfg, mode
        self.verified = 0          # obligations (verifier's count of proved functions, lemmas and assertions by ...)
        self.failed = {}           # function -> list of failed obligations
        self.unreached = {}        # function -> why no contract is checked (lost anchor, unsupported construct)
        self.base = None           # the whole unit could not be processed: why
        self.functions = []        # functions proved
        self.spurious = []         # functions proved only with all definitions revealed
        self.times = {}
        self.log = ''
        self.cmd = ''
        self.text = ''
        self.smt_ms = 0
        self.unstable = {}


def trusted(text):
    """mechanical scan of the unit for what is assumed"""
    out = []
    t = re.sub(r'(?m)//.*$', '', text)
    for m in re.finditer(r'#\[verifier::external_body\][^\n]*?\b(?:proof )?(fn|struct) (\w+)', t):
        out.append(m.group(2))
    for m in re.finditer(r'uninterp spec fn (\w+)', t):
        out.append('uninterpreted ' + m.group(1))
    for m in re.finditer(r'\baxiom fn (\w+)', t):
        out.append('axiom ' + m.group(1))
    for m in re.finditer(r'assume_specification[^\[]*\[\s*([^\]]*?)\s*\]\s*\(', t):
        out.append('assumed contract of ' + m.group(1).split(' as ')[-1].split('::')[-2].rstrip('>') + '::' + m.group(1).split('::')[-1] if '::' in m.group(1) else m.group(1))
    for w in ('admit()', 'assume('):
        n = t.count(w)
        if n:
            out.append('%s x%d' % (w, n))
    seen = []
    for o in out:
        if o not in seen:
            seen.append(o)
    return seen


def collect(u, errors):
    """errors by function -> [(text, hard)]"""
    fails = {}
    lines = u.text.split('\n')
    for e in errors:
        ks = [u.at(s['line_start']) for s in e['spans'] if s.get('is_primary')] + [u.at(s['line_start']) for s in e['spans']]
        ks = [k for k in ks if k]
        k = ks[0] if ks else None
        det = e['message'].split('\n')[0]
        for s in e['spans'][:3]:
            det += ' | %s: %s' % (s.get('label') or 'at', lines[s['line_start'] - 1].strip()[:300])
        name = None
        if k is None:
            for s in e['spans']:
                for ln in range(s['line_start'] - 1, -1, -1):
                    m = re.search(r'proof fn (\w+)', lines[ln])
                    if m:
                        name = m.group(1)
                        break
                if name:
                    break
            k = '%s:%s' % ('theorem' if any(u.in_theorem(s['line_start']) for s in e['spans']) else 'lemma', name or '?')
        fails.setdefault(k, []).append((det, not RLIMIT.search(e['message'])))
    return fails


def prove(cfg, contracts, roots, safety=False, exclude=(), workdir='/tmp', log=print, cone=True, deadline=None, cancel=None, thms=()):
    """roots: functions whose (transitive) callees are all verified"""
    res = Result(cfg, 'safety' if safety else 'full')
    res.selected, res.assumed, res.wall = sorted(roots), [], 0
    res.nerr = 0
    t0 = time.time()
    deadline = deadline or t0 + 700
    data = gen.extract(cfg, sorted(contracts))
    fns = data['fns']
    res.data = data
    sel = []
    todo = [r for r in roots]
    while todo:
        k = todo.pop()
        if k in sel or k in exclude:
            continue
        sel.append(k)
        f = fns.get(k)
        if f and 'callees' in f and cone:
            todo += f['callees']
    sel = set(k for k in sel if k in contracts)
    res.selected = sorted(sel)
    external = set()
    path = os.path.join(workdir, 'unit_%s_%s.rs' % (cfg, res.mode))
    os.makedirs(workdir, exist_ok=True)
    try:
        for attempt in range(8):
            u = gen.Unit(cfg, contracts, safety=safety, only=sel, external=external, data=data, thms=thms)
            for k, why in u.lost.items():
                if k in sel:
                    res.unreached[k] = why
            open(path, 'w').write(u.text)
            res.text = u.text
            rc, js, errs, raw, cmd = gen.verus(path, deadline=deadline, cancel=cancel)
            res.cmd = cmd
            vr = (js or {}).get('verification-results') or {}
            errors = [e for e in errs if e.get('level') == 'error' and not e['message'].startswith('aborting')]
            # errors of the compiler (they carry a code) are no obligations
            coded = [e for e in errors if e.get('code')]
            if js is None or vr.get('encountered-vir-error') or 'verified' not in vr or coded:
                bad = {}
                for e in errors:
                    if not e.get('code') and OBLIGATION.search(e['message']) and js is not None and 'verified' in vr:
                        continue
                    for s in e['spans']:
                        k = u.at(s['line_start'])
                        if k:
                            bad.setdefault(k, e['message'].split('\n')[0][:200])
                new = {k: m for k, m in bad.items() if k not in external}
                if not new and thms and any(u.in_theorem(s['line_start']) for e in errors for s in e['spans']):
                    res.unreached['theorem:' + thms[0]] = 'not accepted by the verifier: ' + errors[0]['message'].split('\n')[0][:200]
                    thms = ()
                    continue
                if not new:
                    res.base = '; '.join(e['message'].split('\n')[0][:200] for e in errors[:3]) or raw[-500:]
                    break
                for k, m in new.items():
                    external.add(k)
                    res.unreached[k] = 'not accepted by the verifier: ' + m
                continue
            break
        else:
            res.base = 'no stable unit'
        if not res.base:
            fails = collect(u, errors)
            res.log = raw
            res.times = js.get('times-ms', {})
            res.first = {k: [t for t, h in v] for k, v in fails.items()}
            res.verified, res.nerr = vr.get('verified', 0), vr.get('errors', 0)
            again = sorted(k for k in fails if k in fns)
            if again:
                # once more, those functions only: with the facts about the names of headers and literals (the order of alternatives that exclude
                # one another is free), then with every definition of the specification in view
                for opt in ('alt', 'revealall'):
                    again = [k for k in again if k in fails]
                    if not again:
                        break
                    try:
                        u2 = gen.Unit(cfg, contracts, safety=safety, only=sel, external=external, data=data, **{opt: set(again)})
                        p2 = path.replace('.rs', '_retry.rs')
                        open(p2, 'w').write(u2.text)
                        rc, js2, errs, raw2, cmd = gen.verus(p2, args=sum([['--verify-only-module', 'm_' + k] for k in again], []), deadline=min(deadline, time.time() + (60 if opt == 'alt' else 150)), cancel=cancel)
                        vr2 = (js2 or {}).get('verification-results') or {}
                        if js2 is not None and 'verified' in vr2 and not vr2.get('encountered-vir-error'):
                            f2 = collect(u2, [e for e in errs if e.get('level') == 'error' and not e['message'].startswith('aborting')])
                            for k in again:
                                if k not in f2:
                                    res.spurious.append(k)
                                    res.nerr -= 1
                                    res.verified += 1
                                    del fails[k]
                    except gen.Stopped:
                        pass
            gone = sorted(k for k, w in u.lost.items() if w == 'function not found')
            for k, v in fails.items():
                if k.startswith('theorem:'):
                    # a fact about the specification, not about the code
                    res.unreached[k] = 'theorem not proved: ' + v[0][0]
                elif k in fns and any(L.get('guess') for L in fns[k]['loops']):
                    # the annotated variables of the loop are gone; they were guessed, and the guess may be wrong
                    res.unreached[k] = 'not proved with renamed loop variables (%s): %s' % (', '.join(sorted(set(n for L in fns[k]['loops'] for n in L.get('guess', [])))), v[0][0])
                elif k in fns and fns[k].get('noloop'):
                    res.unreached[k] = 'not proved without the loops of its contract: ' + v[0][0]
                elif gone:
                    # part of the argument was the contract of a function that is no longer there
                    res.unreached[k] = 'not proved without the contract of %s, which is gone: %s' % (', '.join(gone), v[0][0])
                elif any(h for t, h in v):
                    res.failed[k] = [t for t, h in v]
                else:
                    res.unreached[k] = 'no answer within the resource limit: ' + v[0][0]
    except gen.Stopped as e:
        res.base = 'the proof was not finished: %s' % e
    res.unreached = {k: w for k, w in res.unreached.items() if k in sel or k.startswith(('lemma:', 'theorem:'))}
    res.theorems = [] if res.base else sorted(x for t in u.theorems.values() for x in re.findall(r'pub proof fn (C\d\d_\w+)', t) if 'theorem:' + x not in res.unreached)
    res.functions = sorted(k for k in sel if k not in res.unreached and k not in res.failed) if not res.base else []
    res.wall = time.time() - t0
    if not res.base:
        res.assumed = sorted(set(u.assumed))
    return res
