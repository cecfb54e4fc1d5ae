"""Parser for the textual LLVM IR that clang 18 prints (the subset clang emits for C++ at -O0)."""
import re

TOK = re.compile(r'''
   %"(?:[^"\\]|\\.)*" | %[-\w.$]+ | @"(?:[^"\\]|\\.)*" | @[-\w.$]+ | c"(?:[^"\\]|\\[0-9A-Fa-f]{2}|\\\\)*" | "(?:[^"\\]|\\.)*"
 | \$[-\w.$]+ | -?\d+\.\d+(?:e[+-]?\d+)? | 0x[KLMHR]?[0-9A-Fa-f]+ | -?\d+ | [a-zA-Z_][\w.]* | ![\w.]* | \#\d+ | \.\.\. | [()\[\]{}<>,*=:|]
''', re.X)


def tokenize(s):
    return TOK.findall(s)


class ParseError(Exception):
    pass


class Module:
    def __init__(self):
        self.types = {}
        self.globals = {}     # name -> Global
        self.funcs = {}       # name -> Function
        self.decls = {}
        self.aliases = {}
        self.ctors = []
        self._lay = {}

    # ---- layout
    def resolve(self, t):
        while t[0] == 'named':
            t = self.types[t[1]]
        return t

    def size_align(self, t):
        r = self._lay.get(t)
        if r is None:
            r = self._lay[t] = self._size_align(t)
        return r

    def _size_align(self, t):
        k = t[0]
        if k == 'i':
            n = t[1]
            b = (n + 7) // 8
            p = 1
            while p < b:
                p *= 2
            a = min(p, 16)
            return ((b + a - 1) // a * a, a)
        if k == 'ptr':
            return (8, 8)
        if k == 'f':
            return {32: (4, 4), 64: (8, 8), 80: (16, 16)}[t[1]]
        if k == 'arr':
            s, a = self.size_align(t[2])
            return (s * t[1], a)
        if k == 'named':
            return self.size_align(self.types[t[1]])
        if k == 'st':
            off = 0
            al = 1
            for e in t[1]:
                s, a = self.size_align(e)
                if t[2]:
                    a = 1
                off = (off + a - 1) // a * a + s
                al = max(al, a)
            return ((off + al - 1) // al * al, al)
        if k == 'opaque':
            return (0, 1)
        if k == 'fn':
            return (0, 1)
        raise ParseError('size of %r' % (t,))

    def field(self, t, i):
        """(offset, type) of element i of aggregate t"""
        t = self.resolve(t)
        if t[0] == 'arr':
            return self.size_align(t[2])[0] * i, t[2]
        off = 0
        for j, e in enumerate(t[1]):
            s, a = self.size_align(e)
            if t[2]:
                a = 1
            off = (off + a - 1) // a * a
            if j == i:
                return off, e
            off += s
        raise ParseError('field')


class Global:
    def __init__(self, name, ty, init, const, external):
        self.name = name
        self.ty = ty
        self.init = init
        self.const = const
        self.external = external


class Function:
    def __init__(self, name, head):
        self.name = name
        self.head = head
        self.lines = []
        self.parsed = False
        self.params = None   # [(type, regname, attrs)]
        self.ret = None
        self.blocks = None   # name -> list of instr
        self.entry = None


class P:
    def __init__(self, toks):
        self.t = toks
        self.i = 0

    def peek(self):
        return self.t[self.i] if self.i < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.i < len(self.t) and self.t[self.i] == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise ParseError('expected %s got %s in %s' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if re.match(r'^i\d+$', t):
            r = ('i', int(t[1:]))
        elif t == 'ptr':
            r = ('ptr',)
            if self.peek() == 'addrspace':
                raise ParseError('addrspace')
        elif t == 'void':
            r = ('void',)
        elif t == 'float':
            r = ('f', 32)
        elif t == 'double':
            r = ('f', 64)
        elif t == 'x86_fp80':
            r = ('f', 80)
        elif t == 'metadata' or t == 'label' or t == 'token':
            r = (t,)
        elif t == 'opaque':
            r = ('opaque',)
        elif t[0] == '%':
            r = ('named', t)
        elif t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            r = ('arr', n, e)
        elif t == '{':
            es = []
            if not self.accept('}'):
                while True:
                    es.append(self.type())
                    if self.accept('}'):
                        break
                    self.expect(',')
            r = ('st', tuple(es), False)
        elif t == '<':
            if self.peek() == '{':
                r = self.type()
                r = ('st', r[1], True)
                self.expect('>')
            else:
                n = int(self.next())
                self.expect('x')
                e = self.type()
                self.expect('>')
                r = ('vec', n, e)
        else:
            raise ParseError('type %s in %s' % (t, ' '.join(self.t)))
        # function type "ret (args)"
        if self.peek() == '(' and getattr(self, 'fnty', False):
            self.next()
            d = 1
            while d:
                x = self.next()
                if x == '(':
                    d += 1
                elif x == ')':
                    d -= 1
            r = ('fn', r)
        return r

    ATTR = {'noundef', 'nonnull', 'zeroext', 'signext', 'noalias', 'nocapture', 'readonly', 'writeonly', 'readnone',
            'returned', 'inreg', 'immarg', 'swiftself', 'nest', 'dead_on_unwind', 'writable', 'inalloca', 'noreturn'}

    def attrs(self):
        out = []
        while True:
            p = self.peek()
            if p in self.ATTR:
                out.append(self.next())
            elif p == 'align':
                self.next()
                self.next()
            elif p in ('dereferenceable', 'dereferenceable_or_null', 'sret', 'byval', 'byref', 'elementtype', 'range',
                       'nofpclass', 'preallocated', 'allocalign', 'memory'):
                self.next()
                if self.peek() == '(':
                    self.next()
                    if p in ('sret', 'byval'):
                        ty = self.type()
                        out.append((p, ty))
                        self.expect(')')
                    else:
                        d = 1
                        while d:
                            x = self.next()
                            if x == '(':
                                d += 1
                            elif x == ')':
                                d -= 1
                else:
                    out.append(p)
            else:
                return out

    def value(self, ty):
        t = self.next()
        if t[0] == '%':
            return ('reg', t)
        if t[0] == '@':
            return ('glob', t[1:].strip('"'))
        if t == 'true':
            return ('int', 1)
        if t == 'false':
            return ('int', 0)
        if t == 'null':
            return ('null',)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if t == 'none':
            return ('undef',)
        if re.match(r'^-?\d+$', t):
            return ('int', int(t))
        if t.startswith('0x') or re.match(r'^-?\d+\.', t):
            return ('fp', t)
        if t[0] == 'c' and t[1:2] == '"':
            s = t[2:-1]
            b = bytearray()
            i = 0
            while i < len(s):
                if s[i] == '\\':
                    if s[i + 1] == '\\':
                        b.append(92)
                        i += 2
                    else:
                        b.append(int(s[i + 1:i + 3], 16))
                        i += 3
                else:
                    b.append(ord(s[i]) & 255)
                    i += 1
            return ('str', bytes(b))
        if t in ('[', '{', '<'):
            close = {'[': ']', '{': '}', '<': '>'}[t]
            packed = False
            if t == '<' and self.peek() == '{':
                v = self.value(ty)
                self.expect('>')
                return v
            es = []
            if not self.accept(close):
                while True:
                    et = self.type()
                    es.append((et, self.value(et)))
                    if self.accept(close):
                        break
                    self.expect(',')
            return ('agg', es)
        if t == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            bt = self.type()
            self.expect(',')
            ops = []
            while True:
                et = self.type()
                ops.append((et, self.value(et)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('cgep', bt, ops)
        if t in ('bitcast', 'ptrtoint', 'inttoptr', 'trunc', 'zext', 'sext', 'addrspacecast'):
            self.expect('(')
            st = self.type()
            v = self.value(st)
            self.expect('to')
            dt = self.type()
            self.expect(')')
            return ('ccast', t, st, v, dt)
        raise ParseError('value %s in %s' % (t, ' '.join(self.t)))

    def tv(self):
        ty = self.type()
        self.attrs()
        return ty, self.value(ty)


def parse_module(text):
    m = Module()
    lines = text.split('\n')
    i = 0
    n = len(lines)
    while i < n:
        l = lines[i]
        i += 1
        if not l or l[0] == ';' or l[0] == ' ' or l[0] == '!' or l.startswith('source_filename') or l.startswith('target') \
                or l.startswith('attributes') or l.startswith('module asm') or l[0] == '$':
            continue
        if l[0] == '%':
            name, rest = l.split(' = type ', 1)
            m.types[name] = P(tokenize(rest)).type()
            continue
        if l[0] == '@':
            parse_global(m, l)
            continue
        if l.startswith('declare'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            m.decls[mm.group(1).strip('"')] = l
            continue
        if l.startswith('define'):
            mm = re.search(r'@("[^"]*"|[-\w.$]+)\(', l)
            f = Function(mm.group(1).strip('"'), l)
            while lines[i] != '}':
                f.lines.append(lines[i])
                i += 1
            i += 1
            m.funcs[f.name] = f
            continue
        raise ParseError('module line: ' + l[:100])
    return m


LINK = {'private', 'internal', 'available_externally', 'linkonce', 'weak', 'common', 'appending', 'extern_weak',
        'linkonce_odr', 'weak_odr', 'external', 'dso_local', 'dso_preemptable', 'default', 'hidden', 'protected',
        'unnamed_addr', 'local_unnamed_addr', 'thread_local', 'externally_initialized'}


def parse_global(m, l):
    t = tokenize(l)
    p = P(t)
    name = p.next()[1:].strip('"')
    p.expect('=')
    external = False
    while p.peek() in LINK:
        x = p.next()
        if x in ('external', 'extern_weak'):
            external = True
        if x == 'thread_local' and p.peek() == '(':
            while p.next() != ')':
                pass
    k = p.next()
    if k == 'alias':
        p.fnty = True
        p.type()
        p.fnty = False
        p.expect(',')
        ty = p.type()
        v = p.value(ty)
        m.aliases[name] = v
        return
    if k not in ('global', 'constant'):
        raise ParseError('global ' + l[:200])
    ty = p.type()
    init = None
    if not external and p.peek() not in (None, ','):
        init = p.value(ty)
    m.globals[name] = Global(name, ty, init, k == 'constant', external)
    if name == 'llvm.global_ctors' and init and init[0] == 'agg':
        for et, v in init[1]:
            if v[0] == 'agg':
                m.ctors.append(v[1][1][1][1])


def parse_function(f):
    if f.parsed:
        return f
    # header: find "@name(" params ")"
    h = f.head
    k = h.index('@' + (f.name if ('@' + f.name + '(') in h else '"' + f.name + '"') + '(')
    pre = h[len('define'):k]
    toks = tokenize(h[k:])
    p = P(toks)
    p.next()
    p.expect('(')
    params = []
    idx = 0
    if not p.accept(')'):
        while True:
            if p.accept('...'):
                p.expect(')')
                break
            ty = p.type()
            at = p.attrs()
            nm = p.peek()
            if nm and nm[0] == '%':
                p.next()
            else:
                nm = '%%%d' % idx
            params.append((ty, nm, at))
            idx += 1
            if p.accept(')'):
                break
            p.expect(',')
    f.params = params
    # return type: last type before name
    pt = tokenize(pre)
    pp = P([x for x in pt if x not in LINK and x not in ('fastcc', 'ccc', 'comdat')])
    pp.attrs()
    f.ret = pp.type()
    # blocks
    blocks = {}
    order = []
    cur = None
    first = True
    buf = None
    i = 0
    L = f.lines
    n = len(L)
    nparams_unnamed = sum(1 for (_, nm, _) in params if nm[1:].isdigit())
    while i < n:
        l = L[i]
        i += 1
        if not l:
            continue
        mm = re.match(r'^("(?:[^"]*)"|[-\w.$]+):', l)
        if mm:
            cur = '%' + mm.group(1)
            blocks[cur] = []
            order.append(cur)
            continue
        if l.lstrip().startswith(';'):
            continue
        if cur is None:
            cur = '%' + str(nparams_unnamed)
            blocks[cur] = []
            order.append(cur)
        s = l.strip()
        # multi-line switch / invoke / landingpad
        if s.startswith('switch ') and not s.endswith(']'):
            while True:
                l2 = L[i].strip()
                i += 1
                s += ' ' + l2
                if l2 == ']' or l2.startswith('], ') or l2.startswith(']'):
                    break
        while i < n and (L[i].strip().startswith('to label') or L[i].strip() == 'cleanup' or L[i].strip().startswith('catch ') or L[i].strip().startswith('filter ')):
            s += ' ' + L[i].strip()
            i += 1
        blocks[cur].append(s)
    f.entry = order[0]
    f.blocks = {b: [parse_instr(s) for s in ls] for b, ls in blocks.items()}
    f.order = order
    f.parsed = True
    return f


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr',
       'fadd', 'fsub', 'fmul', 'fdiv', 'frem'}
CAST = {'zext', 'sext', 'trunc', 'bitcast', 'ptrtoint', 'inttoptr', 'fptoui', 'fptosi', 'uitofp', 'sitofp', 'fpext',
        'fptrunc', 'addrspacecast'}


def parse_instr(s):
    try:
        return _parse_instr(s)
    except (IndexError, ValueError) as e:
        raise ParseError('%s: %s' % (e, s))


def _parse_instr(s):
    # strip trailing metadata
    k = s.find(', !')
    if k >= 0:
        s = s[:k]
    p = P(tokenize(s))
    dst = None
    if len(p.t) > 1 and p.t[1] == '=':
        dst = p.next()
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'alloca':
        p.accept('inalloca')
        ty = p.type()
        cnt = None
        if p.accept(','):
            if p.peek() != 'align':
                cnt = p.tv()
        return ('alloca', dst, ty, cnt)
    if op == 'load':
        p.accept('atomic')
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        pv = p.tv()
        return ('load', dst, ty, pv)
    if op == 'store':
        p.accept('atomic')
        p.accept('volatile')
        v = p.tv()
        p.expect(',')
        pv = p.tv()
        return ('store', None, v, pv)
    if op == 'getelementptr':
        p.accept('inbounds')
        bt = p.type()
        ops = []
        while p.accept(','):
            ops.append(p.tv())
        return ('gep', dst, bt, ops)
    if op in ('call', 'invoke'):
        while p.peek() in ('fastcc', 'ccc', 'nnan', 'ninf', 'nsz', 'fast', 'contract', 'reassoc', 'afn', 'arcp'):
            p.next()
        p.attrs()
        p.fnty = True
        rt = p.type()
        p.fnty = False
        if rt[0] == 'fn':
            rt = rt[1]
        callee = p.next()
        if callee == 'asm':
            return ('asm', dst, s)
        p.expect('(')
        args = []
        if not p.accept(')'):
            while True:
                ty = p.type()
                at = p.attrs()
                if ty[0] == 'metadata':
                    # skip metadata operand
                    d = 0
                    while not (d == 0 and p.peek() in (',', ')')):
                        x = p.next()
                        if x == '(':
                            d += 1
                        elif x == ')':
                            d -= 1
                    args.append((ty, ('undef',), at))
                else:
                    args.append((ty, p.value(ty), at))
                if p.accept(')'):
                    break
                p.expect(',')
        norm = None
        if op == 'invoke':
            while p.peek() != 'to':
                p.next()
            p.expect('to')
            p.expect('label')
            norm = p.next()
        c = ('glob', callee[1:].strip('"')) if callee[0] == '@' else ('reg', callee)
        return (op, dst, rt, c, args, norm)
    if op == 'br':
        if p.accept('label'):
            return ('br', None, p.next())
        c = p.tv()
        p.expect(',')
        p.expect('label')
        a = p.next()
        p.expect(',')
        p.expect('label')
        b = p.next()
        return ('cbr', None, c, a, b)
    if op == 'switch':
        v = p.tv()
        p.expect(',')
        p.expect('label')
        d = p.next()
        p.expect('[')
        cs = []
        while not p.accept(']'):
            ct, cv = p.tv()
            p.expect(',')
            p.expect('label')
            cs.append((cv[1], p.next()))
        return ('switch', None, v, d, cs)
    if op == 'ret':
        if p.accept('void'):
            return ('ret', None, None)
        return ('ret', None, p.tv())
    if op == 'icmp' or op == 'fcmp':
        while p.peek() in ('nnan', 'ninf', 'nsz', 'fast'):
            p.next()
        pr = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return (op, dst, pr, ty, a, b)
    if op in BIN:
        fl = []
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint', 'nnan', 'ninf', 'nsz', 'fast'):
            fl.append(p.next())
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        b = p.value(ty)
        return ('bin', dst, op, ty, a, b, tuple(fl))
    if op in CAST:
        fl = []
        while p.peek() in ('nneg', 'nuw', 'nsw'):
            fl.append(p.next())
        st, v = p.tv()
        p.expect('to')
        dt = p.type()
        return ('cast', dst, op, st, v, dt)
    if op == 'fneg':
        ty, v = p.tv()
        return ('fneg', dst, ty, v)
    if op == 'select':
        c = p.tv()
        p.expect(',')
        a = p.tv()
        p.expect(',')
        b = p.tv()
        return ('select', dst, c, a, b)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            b = p.next()
            p.expect(']')
            inc.append((v, b))
            if not p.accept(','):
                break
        return ('phi', dst, ty, inc)
    if op == 'extractvalue':
        ty, v = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('extractvalue', dst, ty, v, idx)
    if op == 'insertvalue':
        ty, v = p.tv()
        p.expect(',')
        et, ev = p.tv()
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insertvalue', dst, ty, v, et, ev, idx)
    if op == 'unreachable':
        return ('unreachable', None)
    if op in ('landingpad', 'resume', 'cleanupret', 'fence'):
        return (op, dst)
    if op == 'freeze':
        return ('freeze', dst, p.tv())
    raise ParseError('instr ' + s)
