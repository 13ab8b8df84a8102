"""Parser for the textual LLVM IR rustc emits (LLVM 15, opaque pointers, no optimisation passes)."""
import re

# ---------------------------------------------------------------- types
# type representation: ('i',n) | ('p',) | ('v',) | ('a',n,t) | ('s',packed,(t...)) | ('n',name) | ('f',kind)
PTR = ('p',)
VOID = ('v',)


class Tok:
    __slots__ = ('s', 'i', 'n')
    RX = re.compile(
        r'\s*(?:("(?:[^"\\]|\\.)*")|(c"(?:[^"\\]|\\.)*")|([%@](?:"(?:[^"\\]|\\.)*"|[-\w.$]+))'
        r'|(-?0x[0-9A-Fa-f]+|-?\d+(?:\.\d+(?:e[+-]?\d+)?)?)|([\w.$]+)|(![\w.]*)|(\.\.\.|<\{|\}>|[\[\]{}()<>,=*:#]))')

    def __init__(self, s):
        self.s = s
        self.i = 0


def tokenize(line):
    out = []
    i = 0
    n = len(line)
    m = Tok.RX.match
    while i < n:
        r = m(line, i)
        if not r or r.end() == i:
            if line[i:].strip() == '' or line[i:].lstrip().startswith(';'):
                break
            raise SyntaxError('tokenize: %r at %r' % (line, line[i:i + 40]))
        t = r.group().strip()
        if t.startswith(';'):
            break
        out.append(t)
        i = r.end()
    return out


class P:
    """token cursor"""
    __slots__ = ('t', 'i', 'mod')

    def __init__(self, toks, mod):
        self.t = toks
        self.i = 0
        self.mod = mod

    def peek(self, k=0):
        j = self.i + k
        return self.t[j] if j < len(self.t) else None

    def next(self):
        x = self.t[self.i]
        self.i += 1
        return x

    def accept(self, x):
        if self.peek() == x:
            self.i += 1
            return True
        return False

    def expect(self, x):
        y = self.next()
        if y != x:
            raise SyntaxError('expected %r got %r in %r' % (x, y, ' '.join(self.t)))

    def type(self):
        t = self.next()
        if t == 'ptr':
            return PTR
        if t == 'void':
            return VOID
        if t[0] == 'i' and t[1:].isdigit():
            return ('i', int(t[1:]))
        if t in ('float', 'double'):
            return ('f', t)
        if t == '[':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect(']')
            return ('a', n, e)
        if t == '<':
            n = int(self.next())
            self.expect('x')
            e = self.type()
            self.expect('>')
            return ('a', n, e)
        if t == '{' or t == '<{':
            end = '}' if t == '{' else '}>'
            fs = []
            while not self.accept(end):
                fs.append(self.type())
                self.accept(',')
            return ('s', t == '<{', tuple(fs))
        if t[0] == '%':
            return ('n', t[1:].strip('"'))
        if t in ('metadata', 'label', 'token', 'x86_mmx', 'half', 'opaque'):
            return ('f', t)
        raise SyntaxError('type %r in %r' % (t, ' '.join(self.t[:60])))

    # operand value: ('c',int) | ('l',name) | ('g',name) | ('agg',[...]) | ('zero',) | ('undef',) | ('expr',op,...)
    def value(self, ty):
        t = self.next()
        c = t[0]
        if c == '%':
            return ('l', t[1:].strip('"'))
        if c == '@':
            return ('g', t[1:].strip('"'))
        if c == '-' or c.isdigit():
            if ty[0] == 'f':
                return ('undef',)
            return ('c', int(t, 0) if t.startswith(('0x', '-0x')) else int(t))
        if t == 'true':
            return ('c', 1)
        if t == 'false':
            return ('c', 0)
        if t == 'null':
            return ('c', 0)
        if t in ('undef', 'poison'):
            return ('undef',)
        if t == 'zeroinitializer':
            return ('zero',)
        if c == 'c' and len(t) > 1 and t[1] == '"':
            return ('bytes', cstr(t[2:-1]))
        if t in ('[', '{', '<{', '<'):
            end = {'[': ']', '{': '}', '<{': '}>', '<': '>'}[t]
            xs = []
            while not self.accept(end):
                et = self.type()
                xs.append((et, self.value(et)))
                self.accept(',')
            return ('agg', xs)
        if t == 'getelementptr':
            self.accept('inbounds')
            self.expect('(')
            sty = self.type()
            self.expect(',')
            args = []
            while True:
                self.accept('inrange')
                at = self.type()
                args.append((at, self.value(at)))
                if self.accept(')'):
                    break
                self.expect(',')
            return ('gep', sty, args)
        if t in ('inttoptr', 'ptrtoint', 'bitcast', 'trunc', 'zext'):
            self.expect('(')
            at = self.type()
            v = self.value(at)
            self.expect('to')
            rt = self.type()
            self.expect(')')
            return ('cast', t, at, v, rt)
        if t in ('sub', 'add', 'mul'):
            while self.peek() in ('nuw', 'nsw'):
                self.next()
            self.expect('(')
            at = self.type()
            a = self.value(at)
            self.expect(',')
            bt = self.type()
            b = self.value(bt)
            self.expect(')')
            return ('bin', t, at, a, b)
        raise SyntaxError('value %r in %r' % (t, ' '.join(self.t)))


def cstr(s):
    out = bytearray()
    i = 0
    while i < len(s):
        if s[i] == '\\' and s[i + 1] == '\\':
            out.append(92)
            i += 2
        elif s[i] == '\\':
            out.append(int(s[i + 1:i + 3], 16))
            i += 3
        else:
            out.append(ord(s[i]))
            i += 1
    return bytes(out)


PARAM_ATTRS = {
    'noundef', 'nonnull', 'noalias', 'nocapture', 'readonly', 'readnone', 'writeonly', 'zeroext', 'signext',
    'inreg', 'immarg', 'returned', 'nofree', 'noreturn', 'nounwind', 'allocptr', 'allocalign',
}


def skip_attrs(p):
    """skip parameter/return attributes"""
    while True:
        t = p.peek()
        if t in PARAM_ATTRS:
            p.next()
        elif t in ('align', 'dereferenceable', 'dereferenceable_or_null'):
            p.next()
            if p.accept('('):
                p.next()
                p.expect(')')
            else:
                p.next()
        elif t in ('sret', 'byval', 'elementtype', 'captures', 'range', 'initializes'):
            p.next()
            p.expect('(')
            d = 1
            while d:
                x = p.next()
                d += x == '('
                d -= x == ')'
        else:
            return


class Function:
    __slots__ = ('name', 'mod', 'ret', 'params', 'lines', 'blocks', 'entry', '_ipdom', '_dead', 'pretty', '_rt')

    def __init__(self, name, mod):
        self.name = name
        self.mod = mod
        self.blocks = None
        self._ipdom = None
        self._dead = None
        self._rt = None

    def parse(self):
        """parse the body: blocks = {label: [instr...]}; instr = tuple(op, dest, ...)"""
        blocks = {}
        cur = None
        order = []
        pend = None
        for ln in self.lines:
            if pend is not None:
                pend += ' ' + ln.strip()
                if ']' in ln:
                    ln = pend
                    pend = None
                else:
                    continue
            s = ln.strip()
            if not s or s[0] == ';':
                continue
            if not ln.startswith(' '):
                m = re.match(r'("(?:[^"\\]|\\.)*"|[-\w.$]+):', s)
                if m:
                    cur = []
                    lab = m.group(1).strip('"')
                    blocks[lab] = cur
                    order.append(lab)
                    continue
            if s.startswith('switch ') and ']' not in s:
                pend = ln
                continue
            if s == 'cleanup' or s.startswith(('catch ', 'filter ')):
                continue
            # drop metadata suffixes
            k = s.find(', !')
            if k >= 0:
                s = s[:k]
            if cur is None:
                cur = []
                blocks['%entry'] = cur
                order.append('%entry')
            if cur and cur[-1][0] == 'invoke' and cur[-1][1] == 'partial':
                cur[-1] = parse_instr(cur[-1][2] + ' ' + s, self.mod)
                continue
            if ('invoke ' in s) and ' unwind label' not in s:
                cur.append(('invoke', 'partial', s))
                continue
            cur.append(parse_instr(s, self.mod))
        self.blocks = blocks
        self.entry = order[0]

    def regtype(self, nm):
        if self._rt is None:
            rt = {n: t for t, n in self.params}
            rt['%ret'] = self.ret
            for b in self.blocks.values():
                for ins in b:
                    op, d = ins[0], ins[1]
                    if d is None or op == 'br':
                        continue
                    if op in ('load', 'phi', 'select', 'call', 'invoke', 'copy', 'insertvalue'):
                        rt[d] = ins[2]
                    elif op in ('gep', 'alloca'):
                        rt[d] = PTR
                    elif op == 'bin':
                        rt[d] = ins[3]
                    elif op == 'cast':
                        rt[d] = ins[5]
                    elif op == 'icmp':
                        rt[d] = ('i', 1)
                    elif op == 'extractvalue':
                        t = ins[2]
                        for k in ins[4]:
                            t = self.mod.resolve(t)
                            t = t[2][k] if t[0] == 's' else t[2]
                        rt[d] = t
            self._rt = rt
        return self._rt.get(nm)

    # ---- CFG
    def succs(self, b):
        t = self.blocks[b][-1]
        if t[0] == 'br':
            return [t[2]]
        if t[0] == 'cbr':
            return [t[3], t[4]]
        if t[0] == 'switch':
            return [t[4]] + [l for _, l in t[5]]
        if t[0] == 'invoke':
            return [t[6]]
        return []

    def analyse(self):
        if self._ipdom is not None:
            return
        bl = list(self.blocks)
        succ = {b: self.succs(b) for b in bl}
        pred = {b: [] for b in bl}
        for b in bl:
            for s in succ[b]:
                pred[s].append(b)
        # blocks that can reach ret
        live = set(b for b in bl if self.blocks[b][-1][0] == 'ret')
        wl = list(live)
        while wl:
            b = wl.pop()
            for q in pred[b]:
                if q not in live:
                    live.add(q)
                    wl.append(q)
        self._dead = set(bl) - live
        EXIT = None
        # post-dominators over live blocks, iterative, with reverse post order from exit
        order = []
        seen = set()

        def dfs(root):
            st = [(root, iter(pred[root]))]
            seen.add(root)
            while st:
                b, it = st[-1]
                for q in it:
                    if q in live and q not in seen:
                        seen.add(q)
                        st.append((q, iter(pred[q])))
                        break
                else:
                    order.append(b)
                    st.pop()
        rets = [b for b in bl if self.blocks[b][-1][0] == 'ret']
        for r in rets:
            if r not in seen:
                dfs(r)
        order.append('%EXIT')
        idx = {b: i for i, b in enumerate(order)}
        ip = {'%EXIT': '%EXIT'}
        lsucc = {b: ([s for s in succ[b] if s in live] if self.blocks[b][-1][0] != 'ret' else ['%EXIT']) for b in live}
        changed = True

        def inter(a, b):
            while a != b:
                while idx[a] < idx[b]:
                    a = ip[a]
                while idx[b] < idx[a]:
                    b = ip[b]
            return a
        while changed:
            changed = False
            for b in reversed(order[:-1]):
                new = None
                for s in lsucc[b]:
                    if s in ip:
                        new = s if new is None else inter(new, s)
                if new is not None and ip.get(b) != new:
                    ip[b] = new
                    changed = True
        self._ipdom = ip

    def ipdom(self, b):
        self.analyse()
        r = self._ipdom.get(b)
        return None if r == '%EXIT' else r

    def is_dead(self, b):
        self.analyse()
        return b in self._dead


def parse_call(p, mod):
    """after 'call'/'invoke'"""
    while p.peek() in ('fastcc', 'coldcc', 'ccc', 'nnan', 'ninf'):
        p.next()
    skip_attrs(p)
    ret = p.type()
    if p.peek() == '(':  # function type for varargs
        d = 0
        while True:
            x = p.next()
            d += x == '('
            d -= x == ')'
            if d == 0:
                break
    if p.peek() == 'asm':
        return ret, ('asm',), []
    callee = p.value(PTR)
    p.expect('(')
    args = []
    while not p.accept(')'):
        ty = p.type()
        skip_attrs(p)
        if ty == ('f', 'metadata'):
            # skip metadata operand
            d = 0
            while True:
                x = p.peek()
                if d == 0 and x in (',', ')'):
                    break
                p.next()
                d += x == '('
                d -= x == ')'
            p.accept(',')
            continue
        args.append((ty, p.value(ty)))
        p.accept(',')
    return ret, callee, args


BIN = {'add', 'sub', 'mul', 'udiv', 'sdiv', 'urem', 'srem', 'and', 'or', 'xor', 'shl', 'lshr', 'ashr'}
CAST = {'zext', 'sext', 'trunc', 'ptrtoint', 'inttoptr', 'bitcast', 'addrspacecast'}


def parse_instr(s, mod):
    p = P(tokenize(s), mod)
    dest = None
    if p.peek(1) == '=' and p.peek()[0] == '%':
        dest = p.next()[1:].strip('"')
        p.next()
    op = p.next()
    if op in ('tail', 'musttail', 'notail'):
        op = p.next()
    if op == 'call':
        ret, callee, args = parse_call(p, mod)
        return ('call', dest, ret, callee, args)
    if op == 'invoke':
        ret, callee, args = parse_call(p, mod)
        while p.peek() != 'to':
            p.next()
        p.next()
        p.expect('label')
        normal = p.next()[1:].strip('"')
        return ('invoke', dest, ret, callee, args, None, normal)
    if op == 'alloca':
        ty = p.type()
        return ('alloca', dest, ty)
    if op == 'load':
        p.accept('volatile')
        ty = p.type()
        p.expect(',')
        pt = p.type()
        return ('load', dest, ty, p.value(pt))
    if op == 'store':
        p.accept('volatile')
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        pt = p.type()
        return ('store', None, ty, v, p.value(pt))
    if op == 'getelementptr':
        p.accept('inbounds')
        sty = p.type()
        args = []
        while p.accept(','):
            at = p.type()
            args.append((at, p.value(at)))
        return ('gep', dest, sty, args)
    if op == 'br':
        if p.accept('label'):
            return ('br', None, p.next()[1:].strip('"'))
        p.type()
        c = p.value(('i', 1))
        p.expect(',')
        p.expect('label')
        a = p.next()[1:].strip('"')
        p.expect(',')
        p.expect('label')
        b = p.next()[1:].strip('"')
        return ('cbr', None, c, a, b)
    if op == 'switch':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        p.expect('label')
        d = p.next()[1:].strip('"')
        p.expect('[')
        cases = []
        while not p.accept(']'):
            ct = p.type()
            cv = p.value(ct)
            p.expect(',')
            p.expect('label')
            cases.append((cv[1], p.next()[1:].strip('"')))
        return ('switch', None, ty, v, d, cases)
    if op == 'ret':
        ty = p.type()
        if ty == VOID:
            return ('ret', None, ty, None)
        return ('ret', None, ty, p.value(ty))
    if op == 'unreachable':
        return ('unreachable', None)
    if op == 'resume':
        return ('unreachable', None)
    if op == 'landingpad':
        return ('landingpad', dest)
    if op == 'phi':
        ty = p.type()
        inc = []
        while True:
            p.expect('[')
            v = p.value(ty)
            p.expect(',')
            l = p.next()[1:].strip('"')
            p.expect(']')
            inc.append((v, l))
            if not p.accept(','):
                break
        return ('phi', dest, ty, inc)
    if op == 'select':
        p.type()
        c = p.value(('i', 1))
        p.expect(',')
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        p.type()
        b = p.value(ty)
        return ('select', dest, ty, c, a, b)
    if op == 'icmp':
        pred = p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return ('icmp', dest, pred, ty, a, p.value(ty))
    if op in BIN:
        while p.peek() in ('nuw', 'nsw', 'exact', 'disjoint'):
            p.next()
        ty = p.type()
        a = p.value(ty)
        p.expect(',')
        return ('bin', dest, op, ty, a, p.value(ty))
    if op in CAST:
        ty = p.type()
        v = p.value(ty)
        p.expect('to')
        return ('cast', dest, op, ty, v, p.type())
    if op == 'extractvalue':
        ty = p.type()
        v = p.value(ty)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('extractvalue', dest, ty, v, idx)
    if op == 'insertvalue':
        ty = p.type()
        v = p.value(ty)
        p.expect(',')
        et = p.type()
        e = p.value(et)
        idx = []
        while p.accept(','):
            idx.append(int(p.next()))
        return ('insertvalue', dest, ty, v, et, e, idx)
    if op == 'freeze':
        ty = p.type()
        return ('copy', dest, ty, p.value(ty))
    return ('unsupported', dest, s)


DEM = [('$LT$', '<'), ('$GT$', '>'), ('$RF$', '&'), ('$BP$', '*'), ('$u20$', ' '), ('$C$', ','), ('$LP$', '('),
       ('$RP$', ')'), ('$u7b$', '{'), ('$u7d$', '}'), ('$u5b$', '['), ('$u5d$', ']'), ('$u3b$', ';'), ('$u27$', "'"),
       ('$u2b$', '+'), ('$u22$', '"'), ('$SP$', '@'), ('$u3d$', '='), ('$u21$', '!'), ('$u7e$', '~')]


def demangle(name):
    if not name.startswith('_ZN'):
        return name
    i = 3
    parts = []
    while i < len(name) and name[i].isdigit():
        j = i
        while name[j].isdigit():
            j += 1
        n = int(name[i:j])
        parts.append(name[j:j + n])
        i = j + n
    if parts and re.fullmatch(r'h[0-9a-f]{16}', parts[-1]):
        parts.pop()
    out = []
    for s in parts:
        if s.startswith('_$'):
            s = s[1:]
        for a, b in DEM:
            s = s.replace(a, b)
        s = s.replace('..', '::')
        out.append(s)
    return '::'.join(out)


class Module:
    def __init__(self, path):
        self.path = path
        self.types = {}
        self.funcs = {}
        self.globals = {}
        self.declares = {}
        self._layout = {}
        self.load(path)

    def load(self, path):
        lines = open(path, encoding='utf-8', errors='replace').read().split('\n')
        i = 0
        n = len(lines)
        pretty = None
        while i < n:
            ln = lines[i]
            if ln.startswith('; ') and not ln.startswith('; Function Attrs'):
                pretty = ln[2:]
            if ln.startswith('%'):
                m = re.match(r'%("(?:[^"\\]|\\.)*"|[-\w.$]+) = type (.*)$', ln)
                if m:
                    body = m.group(2)
                    if body != 'opaque':
                        self.types[m.group(1).strip('"')] = P(tokenize(body), self).type()
            elif ln.startswith('@'):
                self.parse_global(ln)
            elif ln.startswith('define '):
                f = self.parse_define(ln)
                f.pretty = pretty
                pretty = None
                j = i + 1
                while lines[j] != '}':
                    j += 1
                f.lines = lines[i + 1:j]
                self.funcs[f.name] = f
                i = j
            elif ln.startswith('declare '):
                m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
                self.declares[m.group(1).strip('"')] = pretty
                pretty = None
            i += 1

    def parse_global(self, ln):
        m = re.match(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+) = (.*)$', ln)
        name = m.group(1).strip('"')
        rest = m.group(2)
        k = rest.find('!dbg')
        self.globals[name] = rest

    def global_init(self, name):
        rest = self.globals[name]
        toks = tokenize(rest)
        p = P(toks, self)
        ext = False
        while p.peek() not in ('constant', 'global', 'alias', 'ifunc'):
            x = p.next()
            if x == 'external':
                ext = True
            if x == '(':
                pass
        kind = p.next()
        if kind == 'alias':
            ty = p.type()
            p.expect(',')
            p.type()
            return ('alias', p.value(PTR))
        ty = p.type()
        if ext or p.peek() is None or p.peek() == ',':
            return (ty, None)
        return (ty, p.value(ty))

    def parse_define(self, ln):
        m = re.search(r'@("(?:[^"\\]|\\.)*"|[-\w.$]+)\(', ln)
        name = m.group(1).strip('"')
        f = Function(name, self)
        head = tokenize(ln[:m.start()])
        ph = P(head, self)
        ph.next()
        while ph.i < len(head):
            t = ph.peek()
            if t in ('internal', 'private', 'hidden', 'dso_local', 'linkonce_odr', 'weak', 'available_externally',
                     'protected', 'external', 'unnamed_addr', 'fastcc', 'weak_odr', 'linkonce', 'local_unnamed_addr'):
                ph.next()
                continue
            b = ph.i
            skip_attrs(ph)
            if ph.i == b:
                break
        f.ret = ph.type()
        toks = tokenize(ln[m.end() - 1:ln.rindex('{')])
        p = P(toks, self)
        p.expect('(')
        params = []
        while not p.accept(')'):
            ty = p.type()
            skip_attrs(p)
            nm = p.next()
            params.append((ty, nm[1:].strip('"')))
            p.accept(',')
        f.params = params
        return f

    # ---- layout
    def resolve(self, t):
        while t[0] == 'n':
            t = self.types[t[1]]
        return t

    def layout(self, t):
        """-> (size, align)"""
        r = self._layout.get(t)
        if r is None:
            r = self._layout[t] = self._lay(t)
        return r

    def _lay(self, t):
        k = t[0]
        if k == 'n':
            return self.layout(self.types[t[1]])
        if k == 'i':
            n = (t[1] + 7) // 8
            sz = 1
            while sz < n:
                sz *= 2
            return (sz, min(sz, 8))
        if k == 'p':
            return (8, 8)
        if k == 'a':
            s, a = self.layout(t[2])
            return (s * t[1], a)
        if k == 's':
            return self.struct(t)[0]
        if k == 'f':
            return (8, 8) if t[1] == 'double' else (4, 4)
        raise ValueError(t)

    def struct(self, t):
        key = ('S', t)
        r = self._layout.get(key)
        if r is None:
            off = 0
            mx = 1
            offs = []
            for f in t[2]:
                s, a = self.layout(f)
                if t[1]:
                    a = 1
                off = (off + a - 1) // a * a
                offs.append(off)
                off += s
                mx = max(mx, a)
            off = (off + mx - 1) // mx * mx
            r = self._layout[key] = ((off, mx), offs)
        return r
