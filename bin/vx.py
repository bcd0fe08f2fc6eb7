"""Assemble Verus files from /repo's current source and the contracts in /verif/specs, run Verus, read its verdict."""
import json, os, re, subprocess, time
from fractions import Fraction

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('QT_REPO', '/repo')
SPECS = os.path.join(VERIF, 'specs')
BUILD = os.environ.get('QT_BUILD', os.path.join(VERIF, 'build'))


class Lost(Exception):
    """an anchor of a contract is gone or has a shape the extraction does not handle"""


def build_tool(name, log=None):
    env = dict(os.environ, CARGO_TARGET_DIR=os.path.join(BUILD, name + '-target'), CARGO_NET_OFFLINE='true')
    r = subprocess.run(['cargo', 'build', '--offline', '--quiet'], cwd=os.path.join(VERIF, name), env=env,
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=600)
    return r.returncode == 0, r.stdout


def literals():
    """the numbers that the code under test mentions (tests and comments left out), with how often"""
    out = {}
    for d, _, fs in os.walk(os.path.join(REPO, 'src')):
        for f in fs:
            if not f.endswith('.rs'):
                continue
            t = open(os.path.join(d, f), errors='replace').read()
            t = re.sub(r'//[^\n]*|/\*.*?\*/', ' ', t, flags=re.S)
            t = re.split(r'#\[cfg\(test\)\]\s*(?:pub\s+)?mod\b', t)[0]
            t = re.sub(r'"(?:\\.|[^"\\])*"', '""', t)
            for m in re.finditer(r'(?<![\w.])(0x[0-9a-fA-F_]+|0b[01_]+|\d[\d_]*(?:\.(?!\.)(?![a-zA-Z_])[\d_]*)?(?:[eE][+-]?\d+)?)(?:_?[iuf](?:8|16|32|64|128|size))?', t):
                x = m.group(1).replace('_', '')
                try:
                    v = float(int(x, 0)) if x[:2] in ('0x', '0b') else float(x)
                except ValueError:
                    continue
                out[repr(v)] = out.get(repr(v), 0) + 1
            for m in re.finditer(r'\b(i8|u8|i16|u16|EPSILON)\b|<<', t):
                out[m.group(0)] = out.get(m.group(0), 0) + 1
    return out


WORDS = {'i8': [127, 128], 'u8': [255, 256], 'i16': [32767, 32768], 'u16': [65535, 65536], 'EPSILON': [2.0 ** -52, 2.0 ** -23], '<<': [16, 32, 64, 256, 1024]}


def unusual():
    """numbers that a change brought into the source: where the driver looks more closely"""
    base = json.load(open(os.path.join(SPECS, 'literals.json')))
    out = []
    for k, n in sorted(literals().items()):
        if n > base.get(k, 0):
            out += WORDS.get(k) or [float(k)]
    return out[:40]


def extract(config, tool=None):
    tool = tool or os.path.join(BUILD, 'extract-target/debug/qtextract')
    known = os.path.join(SPECS, 'known_fns.json')
    r = subprocess.run([tool, os.path.join(SPECS, config), os.path.join(REPO, 'src')] + ([known] if os.path.exists(known) else []), stdout=subprocess.PIPE,
                       stderr=subprocess.PIPE, text=True, timeout=120)
    if r.returncode != 0:
        raise Lost('extractor: ' + r.stderr[-500:])
    items = {}
    for it in json.loads(r.stdout):
        if it['kind'] == 'error':
            raise Lost('cannot parse %s: %s' % (it['key'], it['error']))
        items.setdefault(it['key'], it)
    if os.path.exists(known):
        guard(items, set(json.load(open(known))))
    return items


def guard(items, known):
    """a function the contracts do not know that changes what a known name means"""
    base = lambda t: re.sub(r"<.*", '', t).lstrip('&').strip()
    pairs, names = set(), set()
    for k in known:
        _, owner, tr, name = k.split('|')
        pairs.add(base(tr))
        names.add(name)
    for k, it in items.items():
        if it['kind'] != 'fn' or k in known:
            continue
        _, owner, tr, name = k.split('|')
        if owner != 'trait' and tr and (base(tr) in pairs or base(tr) in ('Drop', 'Deref', 'DerefMut')):
            raise Lost('%s of the trait %s is given anew for %s' % (name, tr, owner))
        moved = any(x not in items and x.split('|', 1)[1] == k.split('|', 1)[1] for x in known)
        if not tr and name in names and not moved:
            raise Lost('a second function %s: %s' % (name, k))


TAG = ' /*@tag*/'


def facet(lines, prop):
    """drop the lines of other properties; lines that are there for this property end in TAG"""
    out, stack = [], []
    for l in lines:
        m = re.match(r'\s*//#((?:!?C\d+ ?)+)\{', l)
        if m:
            stack.append(keep(m.group(1).split(), prop))
            continue
        if re.match(r'\s*//#\}', l):
            stack.pop()
            continue
        if not all(stack):
            continue
        # `//#+C01 C05`: there for every property, and part of what C01 and C05 say
        m = re.search(r'//#\+((?:C\d+ ?)+)\s*$', l)
        if m:
            out.append(l[:m.start()] + (TAG if prop in m.group(1).split() or any(stack) else ''))
            continue
        m = re.search(r'//#((?:!?C\d+ ?)+)\s*$', l)
        if m and not keep(m.group(1).split(), prop):
            continue
        if m:
            l = l[:m.start()]
        if (m or stack) and not l.strip().startswith('//'):
            l += TAG
        out.append(l)
    return out


def keep(tags, prop):
    neg = [t[1:] for t in tags if t.startswith('!')]
    if neg:
        return prop not in neg
    return prop in tags


def load(world):
    out = []
    for l in open(os.path.join(SPECS, world)).read().split('\n'):
        m = re.match(r'\s*//@@include (\S+)', l)
        if m:
            out += load(m.group(1))
        else:
            out.append(l)
    return out


def frac(x):
    """a number as written in Rust -> (numerator, denominator), or None"""
    x = re.sub(r'_?(?:f32|f64|[iu](?:8|16|32|64|128|size))$', '', x.replace(' ', ''))
    x = x.replace('_', '')
    try:
        f = Fraction(x.rstrip('.'))
    except ValueError:
        return None
    if abs(f.numerator) >= 2 ** 120 or f.denominator >= 2 ** 120:
        return None
    return f.numerator, f.denominator


NUM = r'-? ?\d[\w.]*(?:e-\d+)?'
PIW = r'(?:(?:(?:std|core) :: )?(?:f32|f64) :: )?(?:consts :: )?PI'


def numbers(text):
    """`T::from(0.1)` and the like: the number becomes a fraction (of pi)"""
    def num(m):
        f = frac(m.group(1))
        return 'T :: qt_num (%d , %d)' % f if f else m.group(0)

    def pis(m):
        a, b = frac(m.group(1) or '1'), frac(m.group(2) or '1')
        if not a or not b or b[0] <= 0:
            return m.group(0)
        return 'T :: qt_pis (%d , %d)' % (a[0] * b[1], a[1] * b[0])
    text = re.sub(r'\bT :: from \((%s)\)' % NUM, num, text)
    text = re.sub(r'\bT :: from \((?:(%s) \* )?%s(?: / (%s))?\)' % (NUM, PIW, NUM), pis, text)
    text = re.sub(r'\bT :: from \(%s \* (%s)()\)' % (PIW, NUM), pis, text)
    text = re.sub(r'\bT :: from \((?:(?:std|core) :: )?(?:f32|f64) :: (?:consts :: )?(FRAC_PI_2|FRAC_PI_3|FRAC_PI_4|FRAC_PI_6|FRAC_PI_8|TAU)\)',
                  lambda m: 'T :: qt_pis (%s)' % ('2 , 1' if m.group(1) == 'TAU' else '1 , ' + m.group(1)[-1]), text)
    text = re.sub(r'\bT :: from \((FRAC_PI_\d|TAU)\)', lambda m: 'T :: qt_pis (%s)' % ('2 , 1' if m.group(1) == 'TAU' else '1 , ' + m.group(1)[-1]), text)
    text = re.sub(r'\bT :: from \((?:(?:std|core) :: )?f64 :: EPSILON\)', 'Some (T :: epsilon ())', text)
    return text


TOK = re.compile(r'"(?:\\.|[^"\\])*"|\s+|[^\s"]+')


STR = re.compile(r'"(?:\\.|[^"\\])*"')


def literal(t):
    """ghost facts about a string literal: blanks, or its pieces (words, blanks, single signs)"""
    if t == '""':
        return ['proof { reveal_strlit(""); assert(""@ =~= Seq::<char>::empty()); }']
    if re.match(r'^" +"$', t):
        return ['assert(%s@ == blanks(%d)) by { reveal_strlit(%s); assert(%s@ =~= blanks(%d)); }' % (t, len(t) - 2, t, t, len(t) - 2)]
    ps = ['"%s"' % x for x in re.findall(r' +|[A-Za-z0-9_]+|\\u\{\w+\}|\\.|.', t[1:-1])]
    if len(ps) == 1:
        return []
    cat = '%s@' % ps[0]
    for x in ps[1:]:
        cat = '(%s + %s@)' % (cat, x)
    rev = ' '.join('reveal_strlit(%s);' % x for x in dict.fromkeys([t] + ps))
    out = ['assert(%s@ == %s) by { %s assert(%s@ =~= %s); }' % (t, cat, rev, t, cat)]
    for x in dict.fromkeys(ps):
        if re.match(r'^" +"$', x):
            out += literal(x)
    return out


def pretty(s):
    """one-line token text -> lines (purely white space)"""
    out, depth, cur = [], 0, ''
    i = 0
    while i < len(s):
        c = s[i]
        if c == '"':
            j = i + 1
            while s[j] != '"':
                j += 2 if s[j] == '\\' else 1
            cur += s[i:j + 1]
            i = j + 1
            continue
        if c == '{':
            out.append('    ' * depth + cur.strip() + ' {')
            cur = ''
            depth += 1
        elif c == '}':
            if cur.strip():
                out.append('    ' * depth + cur.strip())
            depth -= 1
            cur = ''
            j = i + 1
            m = re.match(r'\s*([;,)?.\]]|\) *[;,?]|else\b|\.)', s[i + 1:])
            out.append('    ' * max(depth, 0) + '}')
        elif c == ';':
            out.append('    ' * depth + cur.strip() + ';')
            cur = ''
        else:
            cur += c
        i += 1
    if cur.strip():
        out.append('    ' * max(depth, 0) + cur.strip())
    return out


def bound(it):
    """parameters and locals of a function, with what they are bound to"""
    return [[re.sub(r'^mut ', '', p['pat']), 'param %d' % i] for i, p in enumerate(it['params'])] + (it.get('locals') or [])


def renamed(old, new):
    """locals that hints may speak of and that are gone, with the new local that stands in their place.
    Hints are ghost code: a wrong guess can only make a proof fail."""
    have = {n for n, _ in new}
    had = {n for n, _ in old}
    gone = [n for n in dict.fromkeys(n for n, _ in old) if n not in have and not n.startswith('__')]
    fresh = [n for n in dict.fromkeys(n for n, _ in new) if n not in had and not n.startswith('__')]
    out = {}
    its = [[n for n in dict.fromkeys(n for n, _ in x) if re.match(r'__it\d+$', n)] for x in (old, new)]
    if len(its[0]) == len(its[1]):
        # iterators of loops: in order
        out = {a: b for a, b in zip(*its) if a != b}

    # a local that starts as another one starts as what that one was bound to
    inits = {n: w.split('@ = ', 1)[1] for n, w in new if '@ = ' in w}
    size = len(new)
    for n, w in list(new):
        m = re.match(r'(.*@ = )(\w+)$', w)
        if m and m.group(2) in inits:
            new = new + [[n, m.group(1) + inits[m.group(2)]]]

    def what(w):
        return re.sub(r'\w+', lambda m: out.get(m.group(0), m.group(0)), w)
    while gone and fresh:
        step = None
        for n in gone:
            ws = {what(w) for m, w in old if m == n}
            c = [m for m in fresh if any(w in ws for x, w in new if x == m)]
            if len(c) == 1 and not any(k != n and {what(w) for m, w in old if m == k} & ws for k in gone):
                step = (n, c[0])
                break
        if not step:
            break
        out[step[0]] = step[1]
        gone.remove(step[0])
        fresh.remove(step[1])
    if gone and len(old) == size:
        # same number of bindings: by position
        for n in gone:
            c = {new[i][0] for i, (m, _) in enumerate(old) if m == n}
            if len(c) == 1 and list(c)[0] in fresh:
                out[n] = list(c)[0]
    if len(gone) == 1 and len(fresh) == 1:
        out.setdefault(gone[0], fresh[0])
    return out


class World:
    def __init__(self, world, prop, tool=None, canary=False):
        self.world, self.prop, self.canary = world, prop, canary
        lines = facet(load(world), prop)
        cfg = [l.split()[1] for l in lines if l.startswith('//@@config')]
        self.config = cfg[0]
        self.cfg = json.load(open(os.path.join(SPECS, self.config)))
        self.items = extract(self.config, tool)
        self.lines, self.fns = [], []
        self.used = []
        i = 0
        while i < len(lines):
            l = lines[i]
            st = l.strip()
            if st.startswith('//@@config'):
                pass
            elif st.startswith('//@@type'):
                m = re.match(r'//@@type (\S+)(?: (derive\(.*\)))?$', st)
                it = self.get(m.group(1))
                if m.group(2):
                    self.lines.append('#[%s]' % m.group(2))
                self.emit(it['text'])
            elif st.startswith('//@@const'):
                it = self.get(st.split()[1])
                t = re.sub(r'#\s*\[doc\s*=\s*"(?:\\.|[^"\\])*"\]', '', it['text']).strip()
                if not t.startswith('pub'):
                    t = 'pub ' + t
                self.emit(t)
            elif st.startswith('//@@fn'):
                j = i + 1
                blk = []
                while lines[j].strip() != '//@end':
                    blk.append(lines[j])
                    j += 1
                    if j >= len(lines):
                        raise Exception('no //@end for ' + st)
                self.fn(st, blk)
                i = j
            else:
                self.lines.append(l)
            i += 1

    def get(self, key):
        if key not in self.items:
            # moved to another file?
            tail = key.split('|', 1)[1]
            there = [k for k in self.items if '|' in k and k.split('|', 1)[1] == tail]
            if len(there) != 1:
                raise Lost('no item ' + key)
            key = there[0]
        it = self.items[key]
        if it.get('error'):
            raise Lost('%s: %s' % (key, it['error']))
        self.used.append(key)
        return it

    def recorded(self, key):
        """the locals that the function had when its contract was written"""
        if World.locals is None:
            p = os.path.join(SPECS, 'locals.json')
            World.locals = json.load(open(p)) if os.path.exists(p) else {}
        return World.locals.get(self.config, {}).get(key, [])
    locals = None

    def emit(self, text):
        for a, b in self.cfg.get('subst', []):
            text = re.sub(a, b, text)
        self.lines += pretty(text)

    def fn(self, head, blk):
        m = re.match(r"//@@fn (.*?)(?: as (\w+))?$", head)
        key, alias = m.group(1), m.group(2)
        it = self.get(key)
        secs = {'spec': []}
        cur = 'spec'
        opts = {}
        alt = None
        for l in blk:
            s = l.strip()
            if s.startswith('//@strings'):
                opts['strings'] = STR.findall(s)
                continue
            if s == '//@impl':
                opts['impl'] = True
                continue
            mm = re.match(r'//@(ret|recv|generics|attr|params) (.*)$', s)
            if mm:
                opts[mm.group(1)] = mm.group(2)
                continue
            mm = re.match(r'//@alt loops=(\d+)$', s)
            if mm:
                alt = int(mm.group(1)) == it['loops']
                if alt:
                    # the hints for code that loops where it used to recurse
                    secs = {k: v for k, v in secs.items() if k == 'spec' or k.startswith('closure')}
                continue
            if alt is False:
                continue
            mm = re.match(r'//@(loop \d+(?: each)?|closure \d+|body \d+(?: each)?|before \d+(?: each)?|pre|ghost)$', s)
            if mm:
                cur = mm.group(1)
                secs[cur] = []
                continue
            secs[cur].append(l)
        params = []
        for p in it['params']:
            ptxt = p['pat']
            params.append(ptxt + ' : ' + p['ty'])

        def names(l):
            def rep(mm):
                k = int(mm.group(1)) - 1
                if k >= len(it['params']):
                    raise Lost('%s: no parameter %d' % (key, k + 1))
                pat = re.sub(r'^mut ', '', it['params'][k]['pat'])
                if not re.match(r'^\w+$', pat):
                    raise Lost('%s: parameter pattern' % key)
                return pat
            return re.sub(r'\$(\d)', rep, l)
        name = alias or it['name']
        recv = opts.get('recv', it['recv'])
        plist = ([recv] if recv else []) + params
        if 'params' in opts:
            plist = [opts['params']]
        ret = opts.get('ret', it['ret'])
        sig = ('' if 'impl' in opts else 'pub ') + 'fn %s%s (%s)' % (name, opts.get('generics', it['generics']), ', '.join(plist))
        if ret and ret != 'None':
            sig += ' -> (ret : %s)' % ret
        if it['body'] is None:
            raise Lost('%s: no body' % key)
        body = it['body'].strip()
        for a, b in self.cfg.get('subst', []):
            body = re.sub(a, b, body)
            sig = re.sub(a, b, sig)
        body = numbers(body)
        for s in [s for s in secs if s.endswith(' each')]:
            # what holds if the loop goes over an iterator instead of numbers
            if '__it%s = ' % s.split()[1] in body:
                secs[s[:-5]] = secs[s]
            del secs[s]
        n_loops = it['loops']
        for s in secs:
            mm = re.match(r'loop (\d+)', s)
            if mm and int(mm.group(1)) >= n_loops:
                raise Lost('%s: loop %s is gone' % (key, mm.group(1)))
        ren = renamed(self.recorded(key), bound(it))
        if ren:
            pat = re.compile(r'(?<![\w.])(%s)(?!\w|\s*\()' % '|'.join(ren))
            plain = names

            def names(l):
                return pat.sub(lambda m: ren[m.group(1)], plain(l))
        start = len(self.lines) + 1
        if 'attr' in opts:
            self.lines.append(opts['attr'])
        self.lines.append(sig)
        self.lines += [names(l) for l in secs['spec']]
        bl = pretty(body)
        # bl[0] == ' {'
        out = []
        k = 0
        while k < len(bl):
            l = bl[k]
            nx = bl[k + 1].strip() if k + 1 < len(bl) else ''
            mm = re.match(r'__qt_inv ! \((\d+)\)\s*;?$', nx)
            if mm and l.rstrip().endswith('{'):
                inv = [names(x) for x in secs.get('loop ' + mm.group(1), [])]
                if not inv and 'decreases' not in ' '.join(inv) and not l.strip().startswith('for'):
                    # a loop without a contract: termination unknown
                    raise Lost('%s: loop %s has no contract' % (key, mm.group(1)))
                if 'before ' + mm.group(1) in secs:
                    if not re.match(r"\s*('\w+ *: *)?(loop|for|while)\b", l):
                        raise Lost('%s: loop %s is not a statement' % (key, mm.group(1)))
                    out += [names(x) for x in secs['before ' + mm.group(1)]]
                out.append(l.rstrip()[:-1])
                out += ['        ' + x for x in inv]
                out.append('{')
                out += [names(x) for x in secs.get('body ' + mm.group(1), [])]
                k += 2
                continue
            mm = re.match(r'__qt_clo ! \((\d+)\)\s*;?$', nx)
            if mm and l.rstrip().endswith('{'):
                hdr = [names(x) for x in secs.get('closure ' + mm.group(1), [])]
                if not hdr:
                    raise Lost('%s: closure %s has no contract' % (key, mm.group(1)))
                mm2 = re.match(r'^(.*?)\|([^|]*)\| \{$', l.rstrip())
                if not mm2:
                    raise Lost('%s: closure header' % key)
                pnames = mm2.group(2)
                out.append(mm2.group(1))
                out += self.closure(key, pnames, hdr)
                k += 2
                continue
            out.append(l)
            if k == 0 and self.canary:
                out.append('proof { assert(false); }')
            if k == 0 and 'strings' in opts:
                # what the string literals of the body and of the contract say, piece by piece
                for t in dict.fromkeys(opts['strings'] + STR.findall(body)):
                    out += literal(t)
            if k == 0 and 'ghost' in secs:
                out += [names(x) for x in secs['ghost']]
            if k == 0 and 'pre' in secs:
                out.append('proof {')
                out += [names(x) for x in secs['pre']]
                out.append('}')
            k += 1
        self.lines += out
        self.fns.append(dict(key=key, name=name, start=start, end=len(self.lines), shape=self.shape(it), params=len(params), inlined=it['inlined'],
                             hints=it['loops'] > 0 or any(x != 'spec' for x in secs)))

    def closure(self, key, pnames, hdr):
        """hdr: a line `T1 ; T2 -> (o: O)`, then the contract over __a0, __a1"""
        tys, res = hdr[0].rsplit('->', 1)
        tys = [t.strip() for t in tys.split(';')]
        pats, depth, cur = [], 0, ''
        for ch in pnames:
            if ch in '([{<':
                depth += 1
            if ch in ')]}>':
                depth -= 1
            if ch == ',' and depth == 0:
                pats.append(cur)
                cur = ''
            else:
                cur += ch
        pats.append(cur)
        pats = [p.split(' : ')[0].strip() for p in pats]
        if len(pats) != len(tys):
            raise Lost('%s: closure parameters' % key)
        out = ['| ' + ', '.join('__a%d: %s' % (i, t) for i, t in enumerate(tys)) + '| -> ' + res.strip()] + hdr[1:] + ['{']
        return out + ['let %s = __a%d;' % (q, i) for i, q in enumerate(pats)]

    def shape(self, it):
        return dict(loops=it['loops'], closures=it['closures'], calls=sorted(it['calls']), params=len(it['params']), kinds=it['kinds'])

    def text(self):
        head = '#![allow(unused_imports, unused_variables, dead_code, unused_mut, non_snake_case, non_camel_case_types, unused_braces, unused_parens)]\n'
        self.head_lines = 2
        return head + 'verus! {\n'.replace('verus! {', 'vstd::prelude::verus! {') + '\n'.join(self.lines) + '\nfn main() {}\n}\n'

    def tagged(self, line):
        l = line - self.head_lines - 1
        return 0 <= l < len(self.lines) and TAG in self.lines[l]

    def trusted(self):
        """everything in the generated file that is believed without proof; a shim that the
        extracted functions do not name is not relied on by this world and is left out"""
        out, pend = [], False
        code = '\n'.join(l for f in self.fns for l in self.lines[f['start'] - 1:f['end']])
        words = set(re.findall(r'\w+', code))
        words |= {n for n, c in dict(add='+', sub='-', mul='*', div='/', rem='%', neg='-', eq='==').items() if c in code}
        for l in self.lines:
            l = l.replace(TAG, '')
            if 'external_body' in l:
                pend = True
            m = re.search(r'assume_specification.*?\[\s*(.+?)\s*\]\s*(?:\(|$)', l)
            if m:
                if re.findall(r'\w+', re.sub(r'::<.*?>$', '', m.group(1)))[-1] in words:
                    out.append('assumed contract: ' + m.group(1))
            if re.search(r'\b(assume|admit)\(', l):
                out.append('assume/admit: ' + l.strip()[:80])
            if pend:
                m = re.search(r'(proof fn|fn|struct) (\w+)', l.split('external_body')[-1])
                if m:
                    if m.group(1) != 'fn' or m.group(2) in words:
                        out.append('trusted: ' + re.sub(r'\s+', ' ', l.split('external_body')[-1].strip(' )]').strip())[:110])
                    pend = False
        return sorted(set(out))

    def where(self, line):
        """generated-file line -> function under contract"""
        l = line - self.head_lines
        for f in self.fns:
            if f['start'] <= l <= f['end']:
                return f
        return None


def run_verus(path, rlimit=60, timeout=400, threads=4, extra=()):
    t = time.time()
    cmd = ['verus', path, '--output-json', '--time', '--rlimit', str(rlimit), '--num-threads', str(threads), '--multiple-errors', '4', *extra, '--', '--error-format=json']
    try:
        r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, timeout=timeout, cwd=os.path.dirname(path))
    except subprocess.TimeoutExpired:
        return dict(status='timeout', wall=time.time() - t, diags=[], cmd=cmd)
    diags = []
    raw = []
    for l in r.stderr.split('\n'):
        if not l.startswith('{'):
            if l.strip():
                raw.append(l)
            continue
        try:
            d = json.loads(l)
        except ValueError:
            continue
        diags.append(d)
    try:
        js = json.loads(r.stdout[r.stdout.index('{'):])
    except ValueError:
        js = {}
    vr = js.get('verification-results', {})
    errs = [d for d in diags if d.get('level') == 'error' and not d['message'].startswith('aborting')]
    res = dict(wall=time.time() - t, cmd=cmd, verified=vr.get('verified', 0), errors=vr.get('errors', 0), diags=errs, raw=raw[-20:], js=js)
    if vr.get('encountered-vir-error') or (not vr.get('success') and vr.get('errors', 0) == 0):
        res['status'] = 'unsupported'
    elif vr.get('success'):
        res['status'] = 'ok'
    else:
        res['status'] = 'failed'
    return res
