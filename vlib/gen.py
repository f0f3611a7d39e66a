"""Assembly of the Verus file for one configuration of the crate."""
import difflib
import itertools
import json, os, re, signal, subprocess, tempfile, time
from . import spectext as st

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
SRC = REPO + '/email-parser/src'
VX = ROOT + '/tools/vx/target/release/vx'
DEFAULT = ['headers', 'to', 'cc', 'bcc', 'date', 'from', 'sender', 'reply-to', 'message-id', 'in-reply-to', 'references', 'subject', 'comments', 'keywords', 'trace', 'default']
CONFIGS = {'default': DEFAULT, 'all': DEFAULT + ['mime', 'content-disposition', 'unrecognized-headers', 'benchmarking', 'compatibility-fixes']}
CLASSFNS = 'combinators__take_while,combinators__take_while1'


SHAPES = os.path.join(ROOT, 'contracts', 'shapes.json')
_aliases = {}


def raw(cfg, keys, cls=CLASSFNS):
    r = subprocess.run([VX, SRC, ','.join(CONFIGS[cfg]), '1', ','.join(keys), cls], capture_output=True, text=True)
    if r.returncode:
        raise RuntimeError('extractor: ' + (r.stderr or r.stdout)[-2000:])
    return json.loads(r.stdout)


def aliases(cfg):
    """name in this tree -> name of the same function, renamed or moved since, in the tree the contracts were written for"""
    if cfg not in _aliases:
        out = {}
        if os.path.exists(SHAPES):
            base = json.load(open(SHAPES))[cfg]
            now = raw(cfg, [])['fns']
            new = [k for k in now if k not in base]
            pairs = []
            for o in base:
                if o in now:
                    continue
                io, ro, bo = base[o]
                name = o.split('__')[-1]
                for n in new:
                    i, r, b = now[n]['text']
                    if r != ro or i.count(':') != io.count(':'):
                        continue
                    q = difflib.SequenceMatcher(None, bo.replace(name + ' (', 'SELF (').split(), b.replace(n.split('__')[-1] + ' (', 'SELF (').split(), autojunk=False).ratio()
                    if q >= 0.6 or (q >= 0.4 and name == n.split('__')[-1]):
                        pairs.append((q, o, n))
            for q, o, n in sorted(pairs, reverse=True):
                if n not in out and o not in out.values():
                    out[n] = o
        _aliases[cfg] = out
    return _aliases[cfg]


def extract(cfg, keys):
    al = aliases(cfg)
    back = {o: n for n, o in al.items()}
    d = raw(cfg, [back.get(k, k) for k in keys], ','.join(back.get(k, k) for k in CLASSFNS.split(',')))
    if al:
        rx = re.compile(r'\b(%s)\b' % '|'.join(sorted(map(re.escape, al), key=len, reverse=True)))
        ren = lambda x: rx.sub(lambda m: al[m.group(1)], x) if isinstance(x, str) else [ren(y) for y in x] if isinstance(x, list) else {ren(k): ren(v) for k, v in x.items()} if isinstance(x, dict) else x
        d['fns'] = {al.get(k, k): dict(v, **{f: ren(v[f]) for f in ('body', 'callees', 'preds', 'inlined', 'tw') if f in v}) for k, v in d['fns'].items()}
        d['aliases'] = al
    return d


def load_classes():
    out = {}
    for l in open(ROOT + '/contracts/classes.txt'):
        l = l.strip()
        if l and not l.startswith('#'):
            n, e = l.split(':', 1)
            out[n.strip()] = e.strip()
    return out


def class_table(expr):
    p = expr.replace('||', ' or ').replace('&&', ' and ').replace('!(', ' not (')
    f = eval('lambda b: ' + p)
    return ''.join('1' if f(b) else '0' for b in range(256))


def ranges(tab):
    out, i = [], 0
    while i < 256:
        if tab[i] == '1':
            j = i
            while j + 1 < 256 and tab[j + 1] == '1':
                j += 1
            out.append((i, j))
            i = j + 1
        else:
            i += 1
    return ' || '.join('(%d <= b && b <= %d)' % r for r in out) or 'false'


class Classes:
    def __init__(self, vx_classes):
        self.named = load_classes()
        self.tab = {n: class_table(e) for n, e in self.named.items()}
        self.map = {}
        inv = {}
        for n, t in self.tab.items():
            inv.setdefault(t, n)
        self.extra = {}
        for k, t in vx_classes.items():
            if t in inv:
                self.map[k] = inv[t]
            else:
                self.extra[k] = ranges(t)
                self.tab[k] = t

    def rename(self, text):
        return re.sub(r'Cls::(K[0-9a-f]+)', lambda m: 'Cls::' + self.map.get(m.group(1), m.group(1)), text)

    def verus(self):
        allc = dict(self.named)
        allc.update(self.extra)
        s = 'pub enum Cls { ' + ', '.join(allc) + ' }\n'
        s += 'pub open spec fn cls(c: Cls, b: u8) -> bool { match c {\n' + ''.join('    Cls::%s => %s,\n' % (n, e) for n, e in allc.items()) + '} }\n'
        asc = [n for n in allc if '1' not in self.tab[n][128:]]
        hi = [n for n in allc if '0' not in self.tab[n][128:]]
        s += 'pub open spec fn asc(c: Cls) -> bool { match c { ' + ''.join('Cls::%s => true, ' % n for n in asc) + ('_ => false, ' if len(asc) < len(allc) else '') + '} }\n'
        s += 'pub open spec fn hi(c: Cls) -> bool { match c { ' + ''.join('Cls::%s => true, ' % n for n in hi) + '_ => false } }\n'
        s += 'pub proof fn asc_sound(c: Cls, b: u8) requires asc(c), cls(c, b) ensures b < 128 {}\n'
        s += 'pub proof fn hi_sound(c: Cls, b: u8) requires hi(c), b >= 128 ensures cls(c, b) {}\n'
        return s


def lit_text(bs):
    n = st.lit_name(bs)
    seq = ('seq![' + ', '.join('%du8' % b for b in bs) + ']') if bs else 'Seq::<u8>::empty()'
    arr = ', '.join('%du8' % b for b in bs)
    s = 'pub open spec fn q_%s() -> Seq<u8> { %s }\n' % (n, seq)
    ascii_ = all(b < 128 for b in bs)
    e, pr = (', valid_utf8(r@), asc_s(r@)', 'reveal(asc_s); ascii_valid(r@); ') if ascii_ else ('', '')
    if ascii_ and bs.lower() == bs != bs.upper():
        e += ', lower_s(r@) == r@'
        pr += 'assert(lower_s(r@) =~= r@); '
    s += "pub fn lit_%s() -> (r: &'static [u8]) ensures r@ == q_%s()%s { let r: &'static [u8] = &[%s]; proof { assert(r@ =~= q_%s()); %s} r }\n" % (n, n, e, arr, n, pr)
    return s


def slit_text(bs):
    n = st.lit_name(bs)
    if bs.isascii():
        return "pub fn slit_%s() -> (r: &'static str) ensures encode_utf8(r@) == q_%s() { let r = %s; proof { reveal_strlit(%s); is_ascii_chars_encode_utf8(r@); assert(encode_utf8(r@) =~= q_%s()); } r }\n" % (
            n, n, json.dumps(bs.decode('utf8')), json.dumps(bs.decode('utf8')), n)
    return "#[verifier::external_body] pub fn slit_%s() -> (r: &'static str) ensures encode_utf8(r@) == q_%s() { %s }\n" % (n, n, '"?"')


def theorem_texts(feats):
    """the sections of contracts/theorems.rs, by property"""
    out, cur = {}, None
    for l in open(ROOT + '/contracts/theorems.rs'):
        m = re.match(r'//@thm (\w+)( mime| default)?\s*$', l)
        if m:
            ok = not m.group(2) or (m.group(2) == ' mime') == ('mime' in feats)
            cur = m.group(1) if ok else None
        elif cur:
            out[cur] = out.get(cur, '') + l
    out = {t: st.cond(x, feats) for t, x in out.items()}
    if any('thm_REST' in x for x in out.values()):
        out['REST'] = rest_text(feats)
    return out


def rest_text(feats):
    """for every parser of the specification: what it leaves is the end of what it was given"""
    cdir = ROOT + '/contracts/'
    raw = '\n'.join(open(cdir + n).read() for n in ['spec_core.vs', 'spec_msg.vs'] + (['spec_mime.vs'] if 'mime' in feats else []))
    raw = st.undo(st.strip_comments(st.cond(raw, feats)))
    defs, sx = {}, {}
    for m in re.finditer(r'(?m)^spec fn (\w+)\(s: S(.*?)\) -> (.*?)( decreases .*?)?\s*\n?\{(.*?)^(?=spec fn|inline fn|native fn|struct|enum|\Z)', raw, re.S):
        n, args, ret, dec, body = m.groups()
        if re.match(r'^Option<\(S, ', ret) or ret.startswith('(S, ') or n == 'l_wsp':
            if n not in ('sp_before_boundary', 'sp_before_closing', 'l_parts'):
                defs[n] = (args, ret, dec, body)
    text = open(cdir + 'rest.rs').read()
    inl = dict((m.group(1), m.group(2)) for m in re.finditer(r'(?m)^inline fn (\w+)(.*?)^(?=spec fn|inline fn|native fn|struct|enum|\Z)', raw, re.S))

    def calls(b, seen=()):
        r = [n for n in re.findall(r'\b(\w+)\(', b) if n in defs]
        for n in re.findall(r'\b(\w+)\(', b):
            if n in inl and n not in seen:
                r += calls(inl[n], seen + (n,))
        return r
    for n, (args, ret, dec, body) in defs.items():
        call = lambda first: '%s(%s%s)' % (n, first, ''.join(', ' + a.split(':')[0].strip() for a in split_args(args)))
        res = (lambda c: '%s is Some ==> rest(FIRST, %s->Some_0.0)' % (c, c)) if ret.startswith('Option') else (lambda c: 'rest(FIRST, %s%s)' % (c, '' if n == 'l_wsp' else '.0'))
        use = sorted(set(x for x in calls(body) if x != n))
        t = 'pub broadcast proof fn rest_%s(s: S%s) ensures %s%s {\n    reveal(%s);' % (n, args, res('#[trigger] ' + call('s')).replace('FIRST', 's').replace('#[trigger] ', '', 0), ' decreases s.len()' if dec else '', n)
        t = t.replace('#[trigger] ' + call('s') + '->', call('s') + '->')
        t = t.replace('    reveal(%s);' % n, '    broadcast use {gx, brest%s}; reveal(%s);' % (''.join(', rest_' + u for u in use), n))
        if dec:
            a = split_args(args)
            qs = 't: S' + ''.join(', %s' % x.strip() for x in a)
            t += '\n    assert forall|%s| t.len() < s.len() implies %s by { rest_%s(t%s); }' % (qs, res('#[trigger] ' + call('t')).replace('FIRST', 't').replace('#[trigger] ' + call('t') + '->', call('t') + '->'), n, ''.join(', ' + x.split(':')[0].strip() for x in a))
            t += '\n    assert(%s == ({%s));' % (call('s'), body.rstrip())
        text += t + '\n}\n'
    return text


def split_args(a):
    out, d, cur = [], 0, ''
    for c in a:
        if c in '<([':
            d += 1
        elif c in '>)]':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur)
            cur = ''
        else:
            cur += c
    return [x for x in out + [cur] if x.strip()]


class Lost(Exception):
    pass


def anchor_names(loop, body):
    """the names of the variables a loop changes and of those it sees, in the order in which the function mentions them"""
    inv = {}
    for n, v in loop['visible'].items():
        inv.setdefault(v, n)
    pos = lambda v: ((re.search(r'\b%s\b' % re.escape(v), body) or re.match('', '')).start(), v)
    mod = sorted((v for v in loop['modified'] if v in inv), key=pos)
    oth = sorted((v for v in inv if v not in mod), key=pos)
    return [[inv[v] for v in mod], [inv[v] for v in oth]]


ANCHORS = os.path.join(ROOT, 'contracts', 'anchors.json')
_anchors = {}


def anchors(cfg):
    """the same for the tree the contracts were written for: a renamed variable is found by its place"""
    if not _anchors:
        _anchors.update(json.load(open(ANCHORS)) if os.path.exists(ANCHORS) else {'-': {}})
    return _anchors.get(cfg, {})


def renamed(loop, body):
    """old name -> lowered name of a variable that is gone, if as many new ones have come"""
    m = {}
    if loop.get('base'):
        for old, new in zip(loop['base'], anchor_names(loop, body)):
            gone, come = [n for n in old if n not in new], [n for n in new if n not in old]
            if len(gone) == len(come):
                m.update((g, loop['visible'][c]) for g, c in zip(gone, come))
    return m


def resolve(text, loop, body=''):
    """%name -> the lowered name of a variable visible at the loop (or of one of the function that a closure captured)"""
    vis, mod = loop['visible'], loop['modified']
    names = sorted(set(re.findall(r'%(\w+)', text)))
    m = {}
    ren = renamed(loop, body)
    for n in names:
        if n in vis:
            m[n] = vis[n]
        elif n in loop.get('sub', {}):
            m[n] = loop['sub'][n]
            loop.get('guess', []).append(n)
        elif n in ren:
            m[n] = ren[n]
            loop.get('guess', []).append(n)
        else:
            # a variable that a closure captured: the function's own
            own = re.findall(r'\blet (?:mut )?(%s(?:__\d+)?)\b' % n, body)
            if own:
                m[n] = n if n in own else own[-1]
                if len(set(own)) > 1:
                    loop.get('guess', []).append(n)
    rest = [n for n in names if n not in m]
    if rest:
        free = [v for v in mod if v not in m.values()]
        if len(rest) == 1 and len(free) == 1:
            m[rest[0]] = free[0]
            loop.get('guess', []).append(rest[0])
        else:
            raise Lost('variable(s) %s not found at loop' % ', '.join(rest))
    return re.sub(r'%(\w+)', lambda x: m[x.group(1)], text)


def loop_clauses(k, L, spec, safety, src=''):
    """(text before the loop, clauses between loop and body, text at body start, text at loop end)"""
    pre, inv, ens, body, end, xinv = '', [], [], '', '', []
    if spec.get('sub'):
        L = dict(L, sub=spec['sub'])
    i = 0
    for n in spec.get('usz', []):
        pre += 'proof { %s }\n' % resolve('usz(%' + n + ');', L, src)
    for n in spec.get('u8t', []):
        pre += 'proof { %s }\n' % resolve('u8t(%' + n + ');', L, src)
    for t in spec.get('tail', []):
        if safety:
            continue
        f, args, out = t
        call = resolve('%s(%s)' % (f, ', '.join(args)), L, src)
        g = 'g%d_%d' % (k, i)
        i += 1
        pre += 'let ghost %s = %s;\n' % (g, call)
        (xinv if spec.get('xb') else inv).append('%s == %s' % (call, g))
        if out:
            ens.append('%s == %s' % (g, resolve(out, L, src)))
    for kind, dst in (('inv', inv), ('inv_x', xinv), ('ens', ens)):
        dst += [resolve(x, L, src) for x in spec.get(kind + '_s', [])]
        if not safety:
            dst += [resolve(x, L, src) for x in spec.get(kind, [])]
    for x in spec.get('pre_s', []) + ([] if safety else spec.get('pre', [])):
        pre += resolve(x, L, src) + '\n'
    for x in spec.get('body_s', []) + ([] if safety else spec.get('body', [])):
        body += resolve(x, L, src) + '\n'
    for x in spec.get('end_s', []) + ([] if safety else spec.get('end', [])):
        end += resolve(x, L, src) + '\n'
    s = ''
    if xinv:
        s += 'invariant_except_break ' + ', '.join(xinv) + ',\n'
    if inv:
        s += 'invariant ' + ', '.join(inv) + ',\n'
    if ens:
        s += 'ensures ' + ', '.join(ens) + ',\n'
    if 'dec' in spec:
        s += 'decreases ' + resolve(spec['dec'], L, src) + ',\n'
    return pre, s, body, end


def deep(x, f):
    if isinstance(x, str):
        return f(x)
    if isinstance(x, (list, tuple)):
        return type(x)(deep(y, f) for y in x)
    if isinstance(x, dict):
        return {k: deep(v, f) for k, v in x.items()}
    return x


def owned_text(k, f, safety):
    """x.into_owned() on a type of the crate is a call of that type's function"""
    ty = k[:-len('__into_owned')]
    return ("impl<'a> TIntoOwned for %s<'a> { type O = %s<'static>; open spec fn same(&self, o: %s<'static>) -> bool { %s } fn t_into_owned(self) -> %s<'static> { %s(self) } }"
            % (ty, ty, ty, 'true' if safety else 'o.sv() == self.sv()', ty, k))


def at_continues(body, k, end):
    """the facts stated at the end of loop k, at each `continue` to it as well"""
    a, b = body.find('/*@B%d*/' % k), body.find('}/*@E%d*/' % k)
    out, depth, pos = [], 0, a
    for m in re.finditer(r'"(?:\\.|[^"\\])*"|/\*@([BE])(\d+)\*/|\bcontinue\b(?! *\')', body[a:b] if 0 <= a < b else ''):
        if m.group(1):
            depth += 1 if m.group(1) == 'B' else -1
        elif m.group(0) == 'continue' and depth == 1:
            out.append((a + m.start(), a + m.end()))
    for s, e in reversed(out):
        body = body[:s] + '{ ' + end + ' continue }' + body[e:]
    return body


ALT = 'broadcast use gadd;\nbroadcast use ghk;\n%sproof { reveal(lower); }\n'


def fn_text(key, f, c, cl, safety, all_specs, revealall=False, external=False, alt=False, mime=False):
    """The Verus text of one function under contract."""
    name = key
    req = list(c.get('req_s', [])) + ([] if safety else list(c.get('req', [])))
    ens = list(c.get('ens_s', []))
    sp = c.get('spec')
    if not safety:
        if sp:
            ens.append('%s(ret, %s(%s))' % (c.get('rel', 'conf'), sp, c.get('spargs', 'p1@')))
        ens += c.get('ens', [])
    if c.get('prog'):
        ens.append('%s(ret, p1@)' % c['prog'])
    sig = f['sig']
    if f['self_ty'] and f.get('self_generics'):
        own = [x.strip() for x in f['self_generics'].strip().strip('<>').split(',') if x.strip()]
        if sig.startswith('<'):
            e = sig.index('>')
            mine = [x.strip() for x in sig[1:e].split(',')]
            sig = '<' + ', '.join(mine + [x for x in own if x not in mine]) + sig[e:]
        else:
            sig = '<' + ', '.join(own) + '>' + sig
    s = ''
    if external:
        s += '#[verifier::external_body]\n'
    else:
        s += '#[verifier::loop_isolation(false)]\n#[verifier::allow_complex_invariants]\n'
        rl = c.get('rlimit', 40) * (3 if revealall or alt else 1)
        if rl != 40:
            s += '#[verifier::rlimit(%d)]\n' % rl
    s += 'pub fn %s%s\n' % (name, sig)
    if req:
        s += '  requires ' + ', '.join(req) + ',\n'
    if ens:
        s += '  ensures ' + ', '.join(ens) + ',\n'
    if external:
        return s + '{ unimplemented!() }\n'
    body = f['body'].replace('&[]', 't_nil()')
    loops = c.get('loops', [])
    if not f['loops']:
        f['noloop'] = bool(loops)
        loops = []
    if f['loops'] and all('sel' in L for L in f['loops']):
        loops = [loops[L['sel']] for L in f['loops']]
    if len(loops) != len(f['loops']):
        raise Lost('%d loops, contract has %d' % (len(f['loops']), len(loops)))
    rev = []
    if not safety:
        if sp and not c.get('noreveal'):
            rev.append(sp)
        for l in loops:
            if not c.get('noreveal'):
                rev += [t[0] for t in l.get('tail', [])]
        rev += c.get('reveal', [])
    rev += c.get('reveal_s', [])
    if revealall:
        rev += all_specs
    seen = []
    for r in rev:
        if r in all_specs and r not in seen:
            seen.append(r)
    clauses = [loop_clauses(k, L, loops[k], safety, f['body']) for k, L in enumerate(f['loops'])]
    for k, (_, _, _, end) in enumerate(clauses):
        if end:
            body = at_continues(body, k, end)
    for k, (pre, cla, bst, end) in enumerate(clauses):
        pat = re.compile(r"((?:'\w+:\s*)?)loop /\*@L%d\*/\s*\{ /\*@B%d\*/" % (k, k))
        if not pat.search(body):
            raise Lost('loop %d' % k)
        body = pat.sub(lambda m: pre + m.group(1) + 'loop\n' + cla + '{ ' + bst, body)
        if end:
            body = body.replace('}/*@E%d*/' % k, end + '}/*@E%d*/' % k, 1)
    for (a, b) in c.get('ghost', []):
        pass
    s += '{\n'
    if not c.get('nohide'):
        s += 'hide(encode_utf8); hide(valid_utf8);\n'
    if c.get('hide'):
        s += ''.join('hide(q_%s);\n' % n for n in sorted(set(st.lit_name(bytes(b)) for b in f['slits'])))
    if not c.get('nohide'):
        s += 'let ghost vx_hide = (encode_utf8(Seq::<char>::empty()), valid_utf8(Seq::<u8>::empty()));\n'
    s += 'broadcast use gx;\n' + ('broadcast use gx2;\nbroadcast use gadd;\n' if revealall else '') + (ALT % ('broadcast use gbits;\n' if mime else '') if alt else '')
    if c.get('use'):
        s += 'broadcast use {%s};\n' % ', '.join(c['use'])
    if seen:
        s += 'proof { ' + ' '.join('reveal(%s);' % r for r in seen) + ' }\n'
    if revealall or alt:
        s += ''.join('proof { slice_space(%s); }\n' % x for x in re.findall(r'\b(p\d+): ?& ?(?:\'\w+ )?\[u8\]', sig))
    for p in c.get('proof_s', []) + ([] if safety else c.get('proof', [])):
        s += p + '\n'
    s += body + '}\n'
    return cl.rename(s)


class Unit:
    """One Verus file; regions map line ranges to functions."""

    def __init__(self, cfg, contracts, safety=False, only=None, revealall=(), external=(), data=None, thms=(), alt=()):
        self.alt = set(alt)
        self.cfg = cfg
        self.thms = thms
        self.feats = CONFIGS[cfg]
        self.contracts = contracts
        self.data = data or extract(cfg, sorted(contracts))
        self.safety = safety
        self.lost = {}
        self.build(only, set(revealall), set(external))

    def cone(self, roots):
        seen, todo = [], list(roots)
        while todo:
            k = todo.pop()
            if k in seen:
                continue
            seen.append(k)
            f = self.data['fns'].get(k)
            if f and 'callees' in f:
                todo += f['callees']
        return seen

    def build(self, only, revealall, external):
        d = self.data
        feats = set(self.feats)
        used = set()
        cdir = ROOT + '/contracts/'
        cl = Classes(d['classes'])
        self.cl = cl
        mime = 'mime' in feats
        names = ['spec_core.vs', 'spec_msg.vs'] + (['spec_mime.vs'] if mime else [])
        vnames = ['views_core.vs'] + (['views_mime.vs'] if mime else [])
        raw = '\n'.join(open(cdir + n).read() for n in names)
        self.all_specs = st.spec_items(st.cond(raw, feats))
        spec = st.to_verus(raw, feats, used)
        views = st.to_verus('\n'.join(open(cdir + n).read() for n in vnames), feats, used)
        prelude = st.lits(st.cond(open(cdir + 'prelude.rs').read(), feats), used)
        if mime:
            prelude += st.lits(st.cond(open(cdir + 'prelude_mime.rs').read(), feats), used)
        lem = cdir + 'lemmas.rs'
        lemmas = st.lits(st.cond(open(lem).read(), feats), used) if os.path.exists(lem) else ''
        self.no_lemma = set()
        if mime:
            lemmas += st.lits(st.cond(open(cdir + 'lemmas_mime.rs').read(), feats), used)
        # lemmas about a constant the crate does not have (any more) are left out
        gone = [l for l in lemmas.split('\n') if any(n not in d['consts'] for n in re.findall(r'\bcq_(\w+)', l))]
        lemmas = '\n'.join(l for l in lemmas.split('\n') if l not in gone)
        self.no_lemma = set(re.findall(r'proof fn (\w+)', '\n'.join(gone)))
        # property theorems: lemmas over the specification
        all_thms = {} if self.safety or not self.thms else theorem_texts(feats)
        need = ['REST'] if any('thm_REST' in all_thms.get(t, '') for t in self.thms) else []
        self.theorems = {t: st.lits(all_thms[t], used) for t in need + list(self.thms) if t in all_thms}
        slits = set([b''])
        fns = {}
        for k, c in self.contracts.items():
            f = d['fns'].get(k)
            if f is None:
                self.lost[k] = 'function not found'
            elif 'error' in f:
                self.lost[k] = 'not lowered: ' + f['error']
                if f.get('sig'):
                    # callers are still checked against its contract
                    f.update(stub=True, body='', loops=[], callees=[], lits=[], slits=[], preds=[], consts=[], inlined=[])
                    fns[k] = f
            else:
                fns[k] = f
                base = anchors(self.cfg).get(k, [])
                for i, L in enumerate(f['loops']):
                    L['guess'] = []
                    L['base'] = base[i] if len(base) == len(f['loops']) else None
                if 0 < len(f['loops']) < len(base):
                    # fewer loops: those of the contract that change the same variables, in order
                    here = [set(anchor_names(L, f['body'])[0]) for L in f['loops']]
                    like = lambda c: sum(len(h & set(base[j][0])) - len(h ^ set(base[j][0])) for h, j in zip(here, c))
                    sel = max(itertools.combinations(range(len(base)), len(here)), key=like)
                    for j, L in zip(sel, f['loops']):
                        L.update(base=base[j], sel=j, guess=['loop %d of %d' % (j + 1, len(base))])
                for b in f['lits']:
                    used.add(bytes(b))
                for b in f['slits']:
                    used.add(bytes(b))
                    slits.add(bytes(b))
        used.add(b'')
        self.contracts = {k: deep(c, lambda t: st.lits(t, used)) for k, c in self.contracts.items()}
        for k, c in self.contracts.items():
            if c.get('use'):
                c['use'] = [x for x in c['use'] if x not in self.no_lemma]
        out = ['#![feature(sized_hierarchy)]', '#![allow(unused)]', 'use vstd::prelude::*;', 'use vstd::utf8::*;', 'use std::borrow::Cow;', 'verus! {', 'global size_of usize == 8;']
        for b in sorted(slits):
            out.append(slit_text(b))
        out.append(cl.verus())
        for n, t in d['types'].items():
            out.append(t['text'].replace(', }', ' }'))
        for n, cst in d['consts'].items():
            out.append(const_text(n, cst))
        out += [prelude, spec, views, lemmas]
        out.append('} // verus!')
        ls = sorted(used)
        for i in range(0, len(ls), 40):
            out.append('pub mod m_lits_%d { use super::*; use vstd::prelude::*; use vstd::utf8::*; verus! {' % i)
            out += [lit_text(b) for b in ls[i:i + 40]]
            out.append('} }\npub use m_lits_%d::*;' % i)
        for t, x in self.theorems.items():
            out.append('pub mod thm_%s { use super::*; use vstd::prelude::*; use vstd::utf8::*; verus! {\n%s} }' % (t, x if t == 'REST' else 'broadcast use gx;\n' + x))
        text = '\n'.join(out)
        self.regions = []
        self.thm_lines = []
        n = 0
        for o in out:
            m = o.count('\n') + 1
            if o.startswith('pub mod thm_'):
                self.thm_lines.append((n + 1, n + m))
            n += m
        self.preds = 0
        line = text.count('\n') + 1
        self.base_lines = line
        sel = [k for k in self.contracts if only is None or k in only]
        callees = set()
        for k in sel:
            if k in fns:
                callees |= set(fns[k]['callees'])
        self.assumed = []
        for k in self.contracts:
            if k not in fns:
                continue
            if k in sel:
                ext = k in external or bool(self.contracts[k].get('external')) or bool(fns[k].get('stub'))
                if ext and k not in external and not fns[k].get('stub'):
                    self.lost[k] = 'its contract is assumed here, checked by bounded runs only'
            elif k in callees:
                ext = True
                self.assumed.append(k)
            else:
                continue
            f = fns[k]
            try:
                t = fn_text(k, f, self.contracts[k], cl, self.safety, self.all_specs, k in revealall, ext, k in self.alt, 'mime' in self.feats)
            except Lost as e:
                self.lost[k] = 'anchor lost: ' + str(e)
                t = fn_text(k, f, self.contracts[k], cl, self.safety, self.all_specs, False, True)
                ext = True
            for i, (kc, pt) in enumerate([] if ext else f['preds']):
                t += 'fn pred_%d(vx_c: u8) -> (r: bool) ensures r == cls(%s, vx_c) { %s }\n' % (i, cl.rename('Cls::' + kc), pt)
                self.preds += 1
            # callees without contract or lost ones still need a declaration
            m = '\npub mod m_%s { use super::*; use vstd::prelude::*; use vstd::utf8::*; use std::borrow::Cow; verus! {\n%s} }\npub use m_%s::%s;' % (k, t, k, k)
            text += m
            n = m.count('\n')
            if k.endswith('__into_owned'):
                m += '\nverus! { %s }' % owned_text(k, f, self.safety)
                n = m.count('\n')
                text += '\nverus! { %s }' % owned_text(k, f, self.safety)
            self.regions.append((line + 1, line + n, k, ext))
            line += n
        text += '\nfn main() {}\n'
        self.text = text
        self.fns = fns

    def in_theorem(self, line):
        return any(a <= line <= b for a, b in self.thm_lines)

    def at(self, line):
        for a, b, k, ext in self.regions:
            if a <= line <= b:
                return k
        return None


def const_text(n, c):
    m = re.match(r'^&?\s*\[\s*u8\s*;\s*\w+\s*\]$|^&\s*\[\s*u8\s*\]$', c['ty'].replace("'static ", ''))
    e = c['expr'].strip().lstrip('&*').strip()
    if e.startswith('b"'):
        e = '[%s]' % ', '.join(str(v) for v in st.unescape(e[2:-1]))
    if m and e.startswith('['):
        vals = []
        for x in re.findall(r"b'(?:\\.[0-9a-fA-F]{0,2}|[^\\])'|0[xX][0-9a-fA-F_]+|0b[01_]+|\d+", e):
            if x.startswith("b'"):
                vals.append(st.unescape(x[2:-1])[0])
            else:
                vals.append(int(x.replace('_', ''), 0))
        arr = ', '.join('%du8' % v for v in vals)
        return "pub open spec fn cq_%s() -> Seq<u8> { seq![%s] }\npub fn const_%s() -> (r: &'static [u8]) ensures r@ == cq_%s() { let r: &'static [u8] = &[%s]; proof { assert(r@ =~= cq_%s()); } r }" % (n, arr, n, n, arr, n)
    return '// %s' % n


class Stopped(Exception):
    pass


def verus(path, args=(), deadline=None, cancel=None, ms=60000):
    """one run of the verifier, bounded by a deadline (absolute time), per query by ms; ends its solvers with it"""
    cmd = ['verus', path, '--output-json', '--time-expanded', '--error-format=json', '--num-threads', '8', '--rlimit', '40', '--multiple-errors', '0', '--smt-option', 'timeout=%d' % ms] + list(args)
    deadline = deadline or time.time() + 800
    with tempfile.TemporaryFile() as fo, tempfile.TemporaryFile() as fe:
        # verus leaves a directory .verus-solver-log where it runs
        p = subprocess.Popen(cmd, stdout=fo, stderr=fe, cwd=os.path.dirname(os.path.abspath(path)), start_new_session=True)
        why = None
        while p.poll() is None:
            if time.time() > deadline:
                why = 'time limit'
            elif cancel is not None and cancel.is_set():
                why = 'stopped'
            if why:
                try:
                    os.killpg(p.pid, signal.SIGKILL)
                except OSError:
                    pass
                p.wait()
                raise Stopped(why)
            time.sleep(0.05)
        fo.seek(0)
        fe.seek(0)
        out, err = fo.read().decode(errors='replace'), fe.read().decode(errors='replace')
    js = None
    try:
        js = json.loads(out[out.index('{'):])
    except Exception:
        pass
    errs = []
    for l in err.split('\n'):
        if l.startswith('{'):
            try:
                errs.append(json.loads(l))
            except Exception:
                pass
    return p.returncode, js, errs, err, ' '.join(cmd)
