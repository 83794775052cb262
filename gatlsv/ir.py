"""Parser for the subset of textual LLVM 18 IR that clang emits for the harnesses."""
import re
import struct
from fractions import Fraction

TOKEN = re.compile(r'''
    (?P<ws>[ \t\r\n]+)
  | (?P<comment>;[^\n]*)
  | (?P<cstr>c"(?:[^"\\]|\\.)*")
  | (?P<name>[%@](?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]+))
  | (?P<meta>!(?:"(?:[^"\\]|\\.)*"|[-a-zA-Z$._0-9]*))
  | (?P<str>"(?:[^"\\]|\\.)*")
  | (?P<attr>\#[0-9]+)
  | (?P<float>[-+]?[0-9]+\.[0-9]*(?:[eE][-+]?[0-9]+)?)
  | (?P<hex>0x[HKLMR]?[0-9A-Fa-f]+)
  | (?P<int>[-+]?[0-9]+)
  | (?P<dots>\.\.\.)
  | (?P<word>[a-zA-Z_$.][-a-zA-Z0-9_$.]*)
  | (?P<punct>[()\[\]{}<>,=*:|])
''', re.X)


class IRError(Exception):
    pass


def tokenize(text):
    out = []
    pos = 0
    n = len(text)
    while pos < n:
        m = TOKEN.match(text, pos)
        if not m:
            raise IRError('cannot tokenize: %r' % text[pos:pos + 60])
        pos = m.end()
        k = m.lastgroup
        if k in ('ws', 'comment'):
            continue
        out.append((k, m.group()))
    return out


# ---- types -----------------------------------------------------------------
# ('int', n) ('double',) ('float',) ('ptr',) ('void',) ('array', n, t)
# ('struct', [t], packed) ('vec', n, t) ('named', name) ('label',) ('metadata',)
PTR = ('ptr',)
DOUBLE = ('double',)
FLOAT = ('float',)


class Toks:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self, k=0):
        j = self.i + k
        return self.t[j][1] if j < len(self.t) else None

    def kind(self, k=0):
        j = self.i + k
        return self.t[j][0] if j < len(self.t) else None

    def next(self):
        r = self.t[self.i][1]
        self.i += 1
        return r

    def accept(self, s):
        if self.peek() == s:
            self.i += 1
            return True
        return False

    def expect(self, s):
        if self.peek() != s:
            raise IRError('expected %r got %r in %s' % (s, self.peek(), ' '.join(x[1] for x in self.t[max(0, self.i - 15):self.i + 15])))
        self.i += 1

    def done(self):
        return self.i >= len(self.t)


def parse_type(ts):
    w = ts.peek()
    k = ts.kind()
    if k == 'word':
        if re.fullmatch(r'i[0-9]+', w):
            ts.next()
            t = ('int', int(w[1:]))
        elif w in ('double', 'float', 'ptr', 'void', 'label', 'metadata', 'x86_fp80', 'half', 'fp128', 'token', 'opaque'):
            ts.next()
            t = (w,)
        else:
            raise IRError('type? %r' % w)
    elif w == '[':
        ts.next()
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect(']')
        t = ('array', n, e)
    elif w == '<' and ts.peek(1) == '{':
        ts.next()
        ts.next()
        el = []
        while not ts.accept('}'):
            el.append(parse_type(ts))
            ts.accept(',')
        ts.expect('>')
        t = ('struct', tuple(el), True)
    elif w == '<':
        ts.next()
        n = int(ts.next())
        ts.expect('x')
        e = parse_type(ts)
        ts.expect('>')
        t = ('vec', n, e)
    elif w == '{':
        ts.next()
        el = []
        while not ts.accept('}'):
            el.append(parse_type(ts))
            ts.accept(',')
        t = ('struct', tuple(el), False)
    elif k == 'name' and w[0] == '%':
        ts.next()
        t = ('named', w)
    else:
        raise IRError('type? %r' % (w,))
    # function types in call instructions: `ret (args...)`
    if ts.peek() == '(':
        depth = 0
        # only a type when followed by a callee name; caller disambiguates
    return t


ATTR_WORDS = {'noundef', 'nonnull', 'nocapture', 'readonly', 'readnone', 'writeonly', 'noalias', 'signext', 'zeroext',
              'inreg', 'returned', 'immarg', 'nofree', 'nest', 'swiftself', 'allocalign', 'allocptr', 'writable',
              'dead_on_unwind', 'noext', 'inrange'}


def skip_attrs(ts):
    """Skips parameter attributes; returns {'byval': type, 'sret': type}."""
    r = {}
    while True:
        w = ts.peek()
        if w in ATTR_WORDS:
            ts.next()
        elif w in ('align', 'alignstack') :
            ts.next()
            if ts.accept('('):
                ts.next()
                ts.expect(')')
            else:
                ts.next()
        elif w in ('dereferenceable', 'dereferenceable_or_null', 'nofpclass', 'range', 'captures', 'initializes'):
            ts.next()
            skip_parens(ts)
        elif w in ('byval', 'sret', 'byref', 'inalloca', 'preallocated', 'elementtype'):
            ts.next()
            ts.expect('(')
            t = parse_type(ts)
            ts.expect(')')
            r[w] = t
        else:
            return r


def skip_parens(ts):
    ts.expect('(')
    d = 1
    while d:
        w = ts.next()
        if w == '(':
            d += 1
        elif w == ')':
            d -= 1


# ---- operands ----------------------------------------------------------------
# ('reg', name) ('int', n, bits) ('fp', Fraction|float|'nan'..., bits) ('null',) ('global', name)
# ('undef', t) ('zero', t) ('agg', [ops], t) ('cexpr', op, ...) ('bool', b) ('cstr', bytes)

def double_from_hex(h):
    return struct.unpack('>d', bytes.fromhex(h.rjust(16, '0')))[0]


def parse_value(ts, ty):
    w = ts.peek()
    k = ts.kind()
    if k == 'name':
        ts.next()
        return ('reg', w) if w[0] == '%' else ('global', w)
    if k == 'int':
        ts.next()
        if ty[0] == 'int':
            return ('int', int(w) & ((1 << ty[1]) - 1), ty[1])
        return ('fp', float(w))
    if k == 'float':
        ts.next()
        return ('fp', float(w))
    if k == 'hex':
        ts.next()
        if not re.fullmatch('0x[0-9A-Fa-f]+', w):
            raise IRError('fp constant ' + w)
        return ('fp', double_from_hex(w[2:]))
    if k == 'cstr':
        ts.next()
        s = w[2:-1]
        out = bytearray()
        i = 0
        while i < len(s):
            if s[i] == '\\':
                out.append(int(s[i + 1:i + 3], 16))
                i += 3
            else:
                out.append(ord(s[i]))
                i += 1
        return ('cstr', bytes(out))
    if w == 'true' or w == 'false':
        ts.next()
        return ('int', 1 if w == 'true' else 0, 1)
    if w == 'null':
        ts.next()
        return ('null',)
    if w in ('undef', 'poison'):
        ts.next()
        return ('undef', ty)
    if w == 'zeroinitializer':
        ts.next()
        return ('zero', ty)
    if w in ('{', '[', '<'):
        close = {'{': '}', '[': ']', '<': '>'}[w]
        ts.next()
        packed = False
        if w == '<' and ts.peek() == '{':
            ts.next()
            packed = True
            close = '}'
        el = []
        while not ts.accept(close):
            t = parse_type(ts)
            skip_attrs(ts)
            el.append((t, parse_value(ts, t)))
            ts.accept(',')
        if packed:
            ts.expect('>')
        return ('agg', el, ty)
    if w == 'getelementptr':
        ts.next()
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        ts.expect('(')
        base = parse_type(ts)
        ts.expect(',')
        ops = []
        while not ts.accept(')'):
            ts.accept(',')
            ts.accept('inrange')
            t = parse_type(ts)
            ops.append((t, parse_value(ts, t)))
        return ('cgep', base, ops)
    if w in ('bitcast', 'addrspacecast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext'):
        ts.next()
        ts.expect('(')
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect('to')
        t2 = parse_type(ts)
        ts.expect(')')
        return ('ccast', w, t, v, t2)
    if w in ('sub', 'add', 'mul', 'xor', 'and', 'or', 'shl', 'icmp', 'select'):
        raise IRError('constant expression ' + w)
    raise IRError('value? %r' % w)


def parse_typed(ts):
    t = parse_type(ts)
    a = skip_attrs(ts)
    return t, parse_value(ts, t), a


class Instr:
    __slots__ = ('op', 'dst', 'a', 'text')

    def __init__(self, op, dst, a, text):
        self.op = op
        self.dst = dst
        self.a = a
        self.text = text


class Block:
    def __init__(self, name):
        self.name = name
        self.phis = []
        self.ins = []
        self.succ = []


class Func:
    def __init__(self, name):
        self.name = name
        self.params = []   # (type, regname, attrs)
        self.blocks = {}
        self.order = []
        self.ret = None
        self.analysis = None


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}
        self.funcs = {}
        self.decls = {}


INT_BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'shl', 'lshr', 'ashr', 'and', 'or', 'xor'}
FP_BIN = {'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CASTS = {'trunc', 'zext', 'sext', 'fptrunc', 'fpext', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}
FMF = {'nnan', 'ninf', 'nsz', 'arcp', 'contract', 'afn', 'reassoc', 'fast'}


def parse_instr(text):
    ts = Toks(tokenize(text))
    dst = None
    if ts.kind() == 'name' and ts.peek(1) == '=':
        dst = ts.next()
        ts.next()
    op = ts.next()
    if op in ('tail', 'musttail', 'notail'):
        op = ts.next()
    if op in INT_BIN:
        while ts.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        b = parse_value(ts, t)
        return Instr('ibin', dst, (op, t, a, b), text)
    if op in FP_BIN:
        while ts.peek() in FMF:
            if ts.peek() in ('reassoc', 'fast', 'arcp', 'afn', 'contract'):
                raise IRError('fast-math flag in ' + text)
            ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        b = parse_value(ts, t)
        return Instr('fbin', dst, (op, t, a, b), text)
    if op == 'fneg':
        while ts.peek() in FMF:
            ts.next()
        t = parse_type(ts)
        return Instr('fneg', dst, (t, parse_value(ts, t)), text)
    if op in CASTS:
        while ts.peek() in ('nneg', 'nuw', 'nsw'):
            ts.next()
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect('to')
        t2 = parse_type(ts)
        return Instr('cast', dst, (op, t, v, t2), text)
    if op in ('icmp', 'fcmp'):
        while ts.peek() in FMF or ts.peek() == 'samesign':
            ts.next()
        pred = ts.next()
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        b = parse_value(ts, t)
        return Instr(op, dst, (pred, t, a, b), text)
    if op == 'select':
        while ts.peek() in FMF:
            ts.next()
        tc, c, _ = parse_typed(ts)
        ts.expect(',')
        t, a, _ = parse_typed(ts)
        ts.expect(',')
        t2, b, _ = parse_typed(ts)
        return Instr('select', dst, (tc, c, t, a, b), text)
    if op == 'phi':
        while ts.peek() in FMF:
            ts.next()
        t = parse_type(ts)
        inc = []
        while ts.accept('['):
            v = parse_value(ts, t)
            ts.expect(',')
            lab = ts.next()
            ts.expect(']')
            inc.append((lab, v))
            ts.accept(',')
        return Instr('phi', dst, (t, inc), text)
    if op == 'br':
        if ts.peek() == 'label':
            ts.next()
            return Instr('br', None, (ts.next(),), text)
        t = parse_type(ts)
        c = parse_value(ts, t)
        ts.expect(',')
        ts.expect('label')
        a = ts.next()
        ts.expect(',')
        ts.expect('label')
        b = ts.next()
        return Instr('condbr', None, (c, a, b), text)
    if op == 'switch':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        ts.expect('label')
        d = ts.next()
        ts.expect('[')
        cases = []
        while not ts.accept(']'):
            ct = parse_type(ts)
            cv = parse_value(ts, ct)
            ts.expect(',')
            ts.expect('label')
            cases.append((cv[1], ts.next()))
        return Instr('switch', None, (t, v, d, cases), text)
    if op == 'ret':
        t = parse_type(ts)
        v = None if t == ('void',) else parse_value(ts, t)
        return Instr('ret', None, (t, v), text)
    if op == 'unreachable':
        return Instr('unreachable', None, (), text)
    if op == 'alloca':
        t = parse_type(ts)
        cnt = None
        if ts.accept(',') and ts.peek() != 'align':
            ct = parse_type(ts)
            cnt = parse_value(ts, ct)
        return Instr('alloca', dst, (t, cnt), text)
    if op == 'load':
        if ts.peek() in ('volatile', 'atomic'):
            ts.next()
        t = parse_type(ts)
        ts.expect(',')
        pt = parse_type(ts)
        p = parse_value(ts, pt)
        return Instr('load', dst, (t, p), text)
    if op == 'store':
        if ts.peek() in ('volatile', 'atomic'):
            ts.next()
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        pt = parse_type(ts)
        p = parse_value(ts, pt)
        return Instr('store', None, (t, v, p), text)
    if op == 'getelementptr':
        while ts.peek() in ('inbounds', 'nuw', 'nusw'):
            ts.next()
        base = parse_type(ts)
        ops = []
        while ts.accept(','):
            if ts.kind() == 'meta':
                break
            t = parse_type(ts)
            ops.append((t, parse_value(ts, t)))
        return Instr('gep', dst, (base, ops), text)
    if op in ('call', 'invoke'):
        while ts.peek() in FMF or ts.peek() in ('fastcc', 'ccc', 'coldcc'):
            ts.next()
        skip_attrs(ts)
        rt = parse_type(ts)
        if ts.peek() == '(':    # function type (varargs)
            skip_parens(ts)
        callee = parse_value(ts, PTR)
        ts.expect('(')
        args = []
        while not ts.accept(')'):
            t = parse_type(ts)
            at = skip_attrs(ts)
            if t == ('metadata',):
                ts.next()
                args.append((t, None, at))
            else:
                args.append((t, parse_value(ts, t), at))
            ts.accept(',')
        nounwind_dest = None
        normal = unwind = None
        if op == 'invoke':
            while ts.peek() != 'to':
                ts.next()
            ts.next()
            ts.expect('label')
            normal = ts.next()
            ts.expect('unwind')
            ts.expect('label')
            unwind = ts.next()
        return Instr('call', dst, (rt, callee, args, normal, unwind), text)
    if op == 'landingpad':
        t = parse_type(ts)
        cleanup = False
        clauses = []
        while not ts.done():
            w = ts.next()
            if w == 'cleanup':
                cleanup = True
            elif w in ('catch', 'filter'):
                ct = parse_type(ts)
                clauses.append((w, parse_value(ts, ct)))
        return Instr('landingpad', dst, (t, cleanup, clauses), text)
    if op == 'resume':
        t = parse_type(ts)
        return Instr('resume', None, (parse_value(ts, t),), text)
    if op == 'extractvalue':
        t = parse_type(ts)
        v = parse_value(ts, t)
        idx = []
        while ts.accept(','):
            if ts.kind() == 'meta':
                break
            idx.append(int(ts.next()))
        return Instr('extractvalue', dst, (t, v, idx), text)
    if op == 'insertvalue':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        et = parse_type(ts)
        e = parse_value(ts, et)
        idx = []
        while ts.accept(','):
            if ts.kind() == 'meta':
                break
            idx.append(int(ts.next()))
        return Instr('insertvalue', dst, (t, v, et, e, idx), text)
    if op == 'freeze':
        t = parse_type(ts)
        return Instr('freeze', dst, (t, parse_value(ts, t)), text)
    if op == 'extractelement':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        it = parse_type(ts)
        return Instr('extractelement', dst, (t, v, parse_value(ts, it)), text)
    if op == 'insertelement':
        t = parse_type(ts)
        v = parse_value(ts, t)
        ts.expect(',')
        et = parse_type(ts)
        e = parse_value(ts, et)
        ts.expect(',')
        it = parse_type(ts)
        return Instr('insertelement', dst, (t, v, et, e, parse_value(ts, it)), text)
    if op == 'shufflevector':
        t = parse_type(ts)
        a = parse_value(ts, t)
        ts.expect(',')
        t2 = parse_type(ts)
        b = parse_value(ts, t2)
        ts.expect(',')
        mt = parse_type(ts)
        m = parse_value(ts, mt)
        return Instr('shufflevector', dst, (t, a, b, mt, m), text)
    raise IRError('instruction? ' + text)


DEF = re.compile(r'^define\b')


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        ln = lines[i]
        if ln.startswith('%') and ' = type ' in ln:
            nm, rest = ln.split(' = type ', 1)
            m.types[nm] = None if rest.strip() == 'opaque' else parse_type(Toks(tokenize(rest)))
        elif ln.startswith('@'):
            parse_global(m, ln)
        elif ln.startswith('declare'):
            mm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            m.decls[mm.group(1)] = ln
        elif DEF.match(ln):
            j = i + 1
            while lines[j] != '}':
                j += 1
            f = (ln, lines[i + 1:j])
            mm = re.search(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+))\(', ln)
            m.funcs[mm.group(1)] = f    # parsed lazily
            i = j
        i += 1
    return m


def parse_global(m, ln):
    mm = re.match(r'(@(?:"[^"]*"|[-a-zA-Z$._0-9]+)) = (.*)$', ln)
    name, rest = mm.groups()
    if ' alias ' in rest or rest.startswith('alias '):
        tgt = re.findall(r'@(?:"[^"]*"|[-a-zA-Z$._0-9]+)', rest)
        m.globals[name] = ('alias', tgt[-1])
        return
    toks = tokenize(rest)
    ts = Toks(toks)
    ext = False
    while ts.peek() not in ('global', 'constant'):
        w = ts.next()
        if w in ('external', 'extern_weak'):
            ext = True
        if ts.peek() == '(':
            skip_parens(ts)
    const = ts.next() == 'constant'
    t = parse_type(ts)
    m.globals[name] = ('var', t, None if ext else ts, const)   # initializer parsed lazily


def get_func(m, name):
    f = m.funcs.get(name)
    if f is None or isinstance(f, Func):
        return f
    head, body = f
    fn = Func(name)
    k = head.index(name + '(') + len(name)
    ts = Toks(tokenize(head[k:]))
    ts.expect('(')
    cnt = 0
    while not ts.accept(')'):
        if ts.accept('...'):
            continue
        t = parse_type(ts)
        at = skip_attrs(ts)
        if ts.kind() == 'name':
            nm = ts.next()
        else:
            nm = '%' + str(cnt)
        cnt += 1
        fn.params.append((t, nm, at))
        ts.accept(',')
    cur = None
    texts = []
    for ln in body:
        if not ln.strip():
            continue
        mm = re.match(r'^("[^"]*"|[-a-zA-Z$._0-9]+):', ln)
        if mm:
            texts.append(('label', '%' + mm.group(1)))
        elif ln.startswith('   ') or ln.startswith('  ]'):
            texts[-1] = ('ins', texts[-1][1] + '\n' + ln)
        else:
            texts.append(('ins', ln))
    if texts[0][0] != 'label':
        texts.insert(0, ('label', '%' + str(cnt)))
    for k, s in texts:
        if k == 'label':
            cur = Block(s)
            fn.blocks[s] = cur
            fn.order.append(s)
            continue
        ins = parse_instr(strip_meta(s))
        if ins.op == 'phi':
            cur.phis.append(ins)
        else:
            cur.ins.append(ins)
    for b in fn.blocks.values():
        t = b.ins[-1]
        if t.op == 'br':
            b.succ = [t.a[0]]
        elif t.op == 'condbr':
            b.succ = [t.a[1], t.a[2]]
        elif t.op == 'switch':
            b.succ = [t.a[2]] + [c[1] for c in t.a[3]]
        elif t.op == 'call' and t.a[3]:
            b.succ = [t.a[3], t.a[4]]
    analyse(fn)
    m.funcs[name] = fn
    return fn


def strip_meta(s):
    # drop trailing metadata attachments ", !tbaa !5, ..." and "#12"
    s = re.sub(r',\s*![a-zA-Z.]+(?: ![0-9]+)+', '', s)
    s = re.sub(r',\s*![a-zA-Z.]+ ![0-9]+', '', s)
    return s


def analyse(fn):
    """Reverse post order, dominators, natural loops."""
    entry = fn.order[0]
    seen = set()
    post = []
    stack = [(entry, iter(fn.blocks[entry].succ))]
    seen.add(entry)
    while stack:
        b, it = stack[-1]
        for s in it:
            if s not in seen:
                seen.add(s)
                stack.append((s, iter(fn.blocks[s].succ)))
                break
        else:
            post.append(b)
            stack.pop()
    rpo = list(reversed(post))
    num = {b: i for i, b in enumerate(rpo)}
    preds = {b: [] for b in rpo}
    for b in rpo:
        for s in fn.blocks[b].succ:
            preds[s].append(b)
    idom = {entry: entry}
    changed = True
    while changed:
        changed = False
        for b in rpo[1:]:
            new = None
            for p in preds[b]:
                if p in idom:
                    if new is None:
                        new = p
                    else:
                        x, y = p, new
                        while x != y:
                            while num[x] > num[y]:
                                x = idom[x]
                            while num[y] > num[x]:
                                y = idom[y]
                        new = x
            if idom.get(b) != new:
                idom[b] = new
                changed = True

    def dom(a, b):
        while True:
            if a == b:
                return True
            if b == entry:
                return False
            b = idom[b]
    loops = {}
    for b in rpo:
        for s in fn.blocks[b].succ:
            if num[s] <= num[b]:
                if not dom(s, b):
                    raise IRError('irreducible control flow in ' + fn.name)
                body = loops.setdefault(s, {s})
                work = [b]
                while work:
                    x = work.pop()
                    if x not in body:
                        body.add(x)
                        work.extend(preds[x])
    nest = {}
    for b in rpo:
        hs = [h for h, body in loops.items() if b in body]
        hs.sort(key=lambda h: num[h])
        nest[b] = tuple(hs)
    # make numbering respect loop nesting: exits of a loop come after its body
    fn.analysis = (num, nest, loops)
