"""The specification text: conditional sections, do-notation, literals; translation to Verus and to Rust."""
import re


def cond(text, feats):
    out, stack = [], []
    for line in text.split('\n'):
        m = re.match(r'\s*//@(if|else|end)\s*([\w-]*)', line)
        if m:
            k = m.group(1)
            if k == 'if':
                stack.append(m.group(2) in feats)
            elif k == 'else':
                stack[-1] = not stack[-1]
            else:
                stack.pop()
            out.append('')
        else:
            out.append(line if all(stack) else '')
    assert not stack
    return '\n'.join(out)


def skip_str(t, i):
    """index after the string/char literal or comment starting at i, or None"""
    if t.startswith('//', i):
        j = t.find('\n', i)
        return len(t) if j < 0 else j
    if t[i] == '"':
        j = i + 1
        while t[j] != '"':
            j += 2 if t[j] == '\\' else 1
        return j + 1
    return None


def match_close(t, i):
    """t[i] is an opening bracket; index of the closing one"""
    d = 0
    while i < len(t):
        j = skip_str(t, i)
        if j is not None:
            i = j
            continue
        if t[i] in '([{':
            d += 1
        elif t[i] in ')]}':
            d -= 1
            if d == 0:
                return i
        i += 1
    raise ValueError('unbalanced')


def undo(t):
    """let PAT <- EXPR; REST }   =>   match EXPR { None => None, Some(PAT) => { REST } } }"""
    while True:
        m = re.search(r'let ([^;={}]*?) <- ', t)
        if not m:
            return t
        # expression up to ';' at depth 0
        i = m.end()
        d = 0
        while True:
            j = skip_str(t, i)
            if j is not None:
                i = j
                continue
            if t[i] in '([{':
                d += 1
            elif t[i] in ')]}':
                d -= 1
            elif t[i] == ';' and d == 0:
                break
            i += 1
        expr = t[m.end():i]
        # end of the enclosing block
        k = i + 1
        d = 0
        while True:
            j = skip_str(t, k)
            if j is not None:
                k = j
                continue
            if t[k] in '([{':
                d += 1
            elif t[k] in ')]}':
                d -= 1
                if d < 0:
                    break
            k += 1
        t = t[:m.start()] + 'match ' + expr + ' { None => None, Some(' + m.group(1) + ') => {' + t[i + 1:k] + '} }' + t[k:]


def lit_name(bs):
    return ''.join(chr(b) if (48 <= b <= 57 or 65 <= b <= 90 or 97 <= b <= 122) else '_%02x' % b for b in bs)


def unescape(s):
    out = []
    i = 0
    while i < len(s):
        if s[i] == '\\':
            c = s[i + 1]
            if c == 'x':
                out.append(int(s[i + 2:i + 4], 16))
                i += 4
                continue
            out.append({'r': 13, 'n': 10, 't': 9, '\\': 92, '"': 34, "'": 39, '0': 0}[c])
            i += 2
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


def lits(t, used):
    def f(m):
        b = unescape(m.group(1))
        used.add(b)
        return 'q_%s()' % lit_name(b)
    return re.sub(r'b"((?:[^"\\]|\\.)*)"', f, t)


def strip_comments(t):
    return re.sub(r'(?m)(^|\s)//(?!@).*$', r'\1', t)


def split_fields(body):
    out, d, cur = [], 0, ''
    for c in body:
        if c in '([{<':
            d += 1
        elif c in ')]}>':
            d -= 1
        if c == ',' and d == 0:
            out.append(cur.strip())
            cur = ''
        else:
            cur += c
    if cur.strip():
        out.append(cur.strip())
    return out


def structs(t, pre, rust):
    """make structs and enums pub (and derive, for Rust)"""
    i = 0
    out = ''
    while True:
        m = re.compile(r'(?m)^(struct|enum) (\w+) \{').search(t, i)
        if not m:
            return out + t[i:]
        e = match_close(t, m.end() - 1)
        body = t[m.end():e]
        out += t[i:m.start()] + pre + 'pub ' + m.group(1) + ' ' + m.group(2) + ' { '
        fs = split_fields(body)
        out += ', '.join(('pub ' if m.group(1) == 'struct' else '') + f for f in fs) + ' }'
        i = e + 1


def spec_items(t):
    """names of the opaque spec functions with their text (after cond)"""
    return re.findall(r'(?m)^spec fn (\w+)', t)


def prepare(text, feats, used):
    return lits(undo(strip_comments(cond(text, feats))), used)


def to_verus(text, feats, used):
    t = prepare(text, feats, used)
    t = native_to_uninterp(t)
    t = structs(t, '', False)
    t = re.sub(r'(?m)^spec fn', '#[verifier::opaque] pub open spec fn', t)
    t = re.sub(r'(?m)^inline fn', 'pub open spec fn', t)
    t = re.sub(r'(?<!open )spec fn sv\(', 'open spec fn sv(', t)
    return t


def native_to_uninterp(t):
    return re.sub(r'(?m)^native fn (\w+)(\([^)]*\)) -> ([^;]+);', r'pub uninterp spec fn \1\2 -> \3;', t)


def to_rust(text, feats, used):
    """the same text as executable Rust (int is i128, Seq and Map are copyable values in an arena)"""
    t = prepare(text, feats, used)
    t = re.sub(r'(?m)^native fn .*;$', '', t)
    t = structs(t, '#[derive(Clone, Copy, PartialEq, Debug)] ', True)
    t = re.sub(r'(?m)^(?:spec|inline) fn', 'pub fn', t)
    t = re.sub(r'(?<!pub )\bspec fn sv\(', 'fn sv(', t)
    t = re.sub(r'(?m)^(pub fn [^\n]*?)\s*\bdecreases [^{\n]*', r'\1 ', t)
    return t


def rust_lits(used):
    return ''.join('pub fn q_%s() -> S { Seq(&[%s]) }\n' % (lit_name(b), ', '.join('%du8' % x for x in b)) for b in sorted(used))
