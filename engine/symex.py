"""Symbolic executor over the LLVM IR of the real crates.

Control flow, memory layout and addresses are concrete; data is symbolic in a chosen value domain
(BVDom: z3 bit-vectors; LinDom: linear integer arithmetic, see lindom.py).  A branch on a symbolic
condition runs both arms and joins them at the immediate post-dominator, merging register and memory
cells with if-then-else; arms which cannot be merged (they differ in an address or a small index) go on
as separate paths.  A path that reaches a panic is recorded with its path condition.
"""
import re
import sys
import time
import glob
import os

import ir

sys.setrecursionlimit(200000)

SHIFT = 32
BASE = 0x5A0 << 44  # addresses are BASE + (id << 32) + offset


def is_addr(v):
    return type(v) is int and BASE <= v < BASE + (1 << 48)


TOK = None
DEBUG = False
tok_icmp = None


class Unsupported(Exception):
    pass


class Unmergeable(Exception):
    pass


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


class Obj:
    __slots__ = ('size', 'cells', 'owner', 'name')

    def __init__(self, size, owner, name=''):
        self.size = size
        self.cells = {}
        self.owner = owner
        self.name = name

    def clone(self, owner):
        o = Obj(self.size, owner, self.name)
        o.cells = dict(self.cells)
        return o


class State:
    __slots__ = ('objs', 'pc', 'sid', 'extra')
    _n = 0

    def __init__(self):
        State._n += 1
        self.sid = State._n
        self.objs = {}
        self.pc = ()
        self.extra = None

    def fork(self):
        s = State()
        s.objs = dict(self.objs)
        s.pc = self.pc
        s.extra = self.extra
        # both sides now share the objects: give this state a new identity too
        State._n += 1
        self.sid = State._n
        return s


class Panic(Exception):
    pass


PANIC_RX = re.compile(
    r'panicking|unwrap_failed|expect_failed|slice_(start|end)_index|slice_index_|len_mismatch_fail|capacity_overflow|'
    r'handle_alloc_error|rust_begin_unwind|begin_panic|panic_fmt|option::expect_none|alloc_error|_Unwind_Resume|'
    r'assert_failed|index_len_fail|index_order_fail|panic_')


class Program:
    def __init__(self, paths):
        self.mods = [ir.Module(p) for p in paths]
        self.funcs = {}
        self.byname = {}
        for m in self.mods:
            for n, f in m.funcs.items():
                self.funcs.setdefault(n, f)
        self.dem = {}

    def demangle(self, n):
        d = self.dem.get(n)
        if d is None:
            d = self.dem[n] = ir.demangle(n)
        return d

    def find(self, rx):
        r = re.compile(rx)
        return [f for n, f in self.funcs.items() if r.search(self.demangle(n))]


class Executor:
    def __init__(self, prog, dom, hooks=(), maxsteps=50_000_000, deadline=None):
        self.prog = prog
        self.dom = dom
        self.hooks = [(re.compile(rx), fn) for rx, fn in hooks]
        self.hcache = {}
        self.nid = 1
        self.gaddr = {}
        self.gobjs = {}
        self.faddr = {}
        self.fbyaddr = {}
        self.panics = []
        self.steps = 0
        self.depth = 0
        self.maxsteps = maxsteps
        self.deadline = deadline
        self.called = {}
        self.loop_guard = {}
        self.forks = 0
        self.merges = 0
        self.merge_index = False
        self.tokspace = None

    # ------------------------------------------------------------ memory
    def new_obj(self, st, size, name=''):
        i = self.nid
        self.nid += 1
        o = Obj(size, st.sid, name)
        st.objs[i] = o
        return BASE + (i << SHIFT)

    def obj(self, st, addr, write=False):
        if type(addr) is not int:
            raise Unsupported('symbolic address')
        i = (addr - BASE) >> SHIFT
        off = addr & ((1 << SHIFT) - 1)
        o = st.objs.get(i)
        if o is None:
            o = self.gobjs.get(i)
            if o is None:
                raise Unsupported('bad address %x' % addr)
            if write:
                o = o.clone(st.sid)
                st.objs[i] = o
            return o, off
        if write and o.owner != st.sid:
            o = o.clone(st.sid)
            st.objs[i] = o
        return o, off

    def byte_of(self, val, size, k):
        """k-th (little endian) byte of a cell value"""
        if type(val) is int:
            return (val >> (8 * k)) & 0xff
        if val is UNDEF:
            return UNDEF
        if size == 1:
            return val
        if TOK is not None and isinstance(val, TOK):
            raise Unmergeable('bytes of an abstract element')
        return self.dom.byte(val, size * 8, k)

    def split(self, o, off, size):
        """make every cell overlapping [off,off+size) lie fully inside it (split to bytes when not)"""
        for c in list(o.cells):
            if c >= off + size or c < off - 16:
                continue
            s, v = o.cells[c]
            if c + s <= off:
                continue
            if c >= off and c + s <= off + size:
                continue
            del o.cells[c]
            for k in range(s):
                o.cells[c + k] = (1, self.byte_of(v, s, k))

    def over(self, o, off, size):
        if size <= 32:
            for c in range(off - 15, off + size):
                x = o.cells.get(c)
                if x is not None and c + x[0] > off:
                    yield c
        else:
            for c in sorted(o.cells):
                if c < off + size and c + o.cells[c][0] > off:
                    yield c

    def write(self, st, addr, size, val):
        if size == 0:
            return
        o, off = self.obj(st, addr, True)
        if off + size > o.size:
            raise Unsupported('out of bounds write %s %d+%d>%d' % (o.name, off, size, o.size))
        x = o.cells.get(off)
        if x is not None and x[0] == size:
            o.cells[off] = (size, val)
            return
        for c in list(self.over(o, off, size)):
            s, v = o.cells.pop(c)
            if c < off or c + s > off + size:
                for k in range(s):
                    if not (off <= c + k < off + size):
                        o.cells[c + k] = (1, self.byte_of(v, s, k))
        o.cells[off] = (size, val)

    def read(self, st, addr, size):
        o, off = self.obj(st, addr)
        x = o.cells.get(off)
        if x is not None and x[0] == size:
            return x[1]
        if off + size > o.size:
            raise Unsupported('out of bounds read %s %d+%d>%d' % (o.name, off, size, o.size))
        bs = [UNDEF] * size
        for c in self.over(o, off, size):
            s, v = o.cells[c]
            for k in range(s):
                if off <= c + k < off + size:
                    bs[c + k - off] = self.byte_of(v, s, k)
        if all(type(b) is int for b in bs):
            return int.from_bytes(bytes(bs), 'little')
        if any(b is UNDEF for b in bs):
            return UNDEF
        return bs[0] if size == 1 else self.dom.concat(bs)

    def memcpy(self, st, dst, src, n):
        if n == 0 or dst == src:
            return
        so, soff = self.obj(st, src)
        if soff + n > so.size:
            raise Unsupported('memcpy read oob')
        cells = []
        for c in self.over(so, soff, n):
            s, v = so.cells[c]
            if c >= soff and c + s <= soff + n:
                cells.append((c - soff, s, v))
            else:
                for k in range(s):
                    if soff <= c + k < soff + n:
                        cells.append((c + k - soff, 1, self.byte_of(v, s, k)))
        do, doff = self.obj(st, dst, True)
        if doff + n > do.size:
            raise Unsupported('memcpy write oob')
        for c in list(self.over(do, doff, n)):
            s, v = do.cells.pop(c)
            if c < doff or c + s > doff + n:
                for k in range(s):
                    if not (doff <= c + k < doff + n):
                        do.cells[c + k] = (1, self.byte_of(v, s, k))
        for c, s, v in cells:
            do.cells[doff + c] = (s, v)

    def load_ty(self, st, mod, ty, addr):
        ty = mod.resolve(ty)
        k = ty[0]
        if k == 'i':
            size = mod.layout(ty)[0]
            v = self.read(st, addr, size)
            if ty[1] < size * 8 and v is not UNDEF:
                if type(v) is int:
                    return v & ((1 << ty[1]) - 1)
                return self.dom.trunc(v, size * 8, ty[1])
            return v
        if k == 'p':
            return self.read(st, addr, 8)
        if k == 'a':
            s = mod.layout(ty[2])[0]
            return [self.load_ty(st, mod, ty[2], addr + i * s) for i in range(ty[1])]
        if k == 's':
            _, offs = mod.struct(ty)
            return [self.load_ty(st, mod, f, addr + o) for f, o in zip(ty[2], offs)]
        raise Unsupported('load %r' % (ty,))

    def store_ty(self, st, mod, ty, addr, v):
        ty = mod.resolve(ty)
        k = ty[0]
        if k == 'i':
            size = mod.layout(ty)[0]
            if ty[1] < size * 8 and type(v) is not int and v is not UNDEF:
                v = self.dom.zext(v, ty[1], size * 8)
            self.write(st, addr, size, v)
        elif k == 'p':
            self.write(st, addr, 8, v)
        elif k == 'a':
            if v is UNDEF:
                return
            s = mod.layout(ty[2])[0]
            for i in range(ty[1]):
                self.store_ty(st, mod, ty[2], addr + i * s, v[i])
        elif k == 's':
            if v is UNDEF:
                return
            _, offs = mod.struct(ty)
            for f, o, x in zip(ty[2], offs, v):
                self.store_ty(st, mod, f, addr + o, x)
        else:
            raise Unsupported('store %r' % (ty,))

    # ------------------------------------------------------------ globals
    def global_addr(self, mod, name):
        if name in mod.funcs or name in self.prog.funcs or name in mod.declares:
            a = self.faddr.get(name)
            if a is None:
                i = self.nid
                self.nid += 1
                a = BASE + (i << SHIFT)
                self.faddr[name] = a
                self.fbyaddr[a] = name
            return a
        key = (mod, name)
        a = self.gaddr.get(key)
        if a is not None:
            return a
        m = mod
        gi = m.global_init(name) if name in m.globals else None
        if gi is None or (gi[0] != 'alias' and gi[1] is None):
            for m2 in self.prog.mods:
                if name in m2.globals:
                    g2 = m2.global_init(name)
                    if g2[0] == 'alias' or g2[1] is not None:
                        m, gi = m2, g2
                        break
        if gi is None:
            raise Unsupported('unknown global ' + name)
        if gi[0] == 'alias':
            a = self.const(m, ir.PTR, gi[1])
            self.gaddr[key] = a
            return a
        ty, init = gi
        size = m.layout(ty)[0]
        i = self.nid
        self.nid += 1
        a = BASE + (i << SHIFT)
        self.gaddr[key] = a
        o = Obj(size, 0, '@' + name)
        self.gobjs[i] = o
        if init is not None:
            tmp = State()
            tmp.objs[i] = o
            o.owner = tmp.sid
            self.init_global(tmp, m, ty, a, init)
            o.owner = 0
        return a

    def init_global(self, st, mod, ty, addr, init):
        ty = mod.resolve(ty)
        if init[0] == 'bytes':
            for k, b in enumerate(init[1]):
                self.write(st, addr + k, 1, b)
            return
        if init[0] == 'zero':
            for k in range(mod.layout(ty)[0]):
                self.write(st, addr + k, 1, 0)
            return
        if init[0] == 'agg':
            if ty[0] == 'a':
                s = mod.layout(ty[2])[0]
                for i, (et, ev) in enumerate(init[1]):
                    self.init_global(st, mod, et, addr + i * s, ev)
            else:
                _, offs = mod.struct(ty)
                for o, (et, ev) in zip(offs, init[1]):
                    self.init_global(st, mod, et, addr + o, ev)
            return
        if init[0] == 'undef':
            return
        self.store_ty(st, mod, ty, addr, self.const(mod, ty, init))

    def const(self, mod, ty, v):
        k = v[0]
        if k == 'c':
            if ty[0] == 'i':
                return v[1] & ((1 << ty[1]) - 1)
            return v[1]
        if k == 'undef':
            return UNDEF
        if k == 'zero':
            return self.zero(mod, ty)
        if k == 'g':
            return self.global_addr(mod, v[1])
        if k == 'agg':
            return [self.const(mod, et, ev) for et, ev in v[1]]
        if k == 'bytes':
            return list(v[1])
        if k == 'gep':
            args = [self.const(mod, at, av) for at, av in v[2]]
            return self.gep(mod, v[1], args)
        if k == 'cast':
            return self.cast(v[1], mod.resolve(v[2]), self.const(mod, v[2], v[3]), mod.resolve(v[4]))
        if k == 'bin':
            w = v[2][1]
            return self.binop(v[1], w, self.const(mod, v[2], v[3]), self.const(mod, v[2], v[4]))
        raise Unsupported('const %r' % (v,))

    def zero(self, mod, ty):
        ty = mod.resolve(ty)
        if ty[0] == 'a':
            return [self.zero(mod, ty[2])] * ty[1]
        if ty[0] == 's':
            return [self.zero(mod, f) for f in ty[2]]
        return 0

    def gep(self, mod, sty, args):
        a = args[0]
        off = 0
        t = sty
        for k, ix in enumerate(args[1:]):
            if k == 0:
                if type(ix) is not int:
                    ix = self.dom.concretize(ix)
                if ix >= 1 << 63:
                    ix -= 1 << 64
                off += ix * mod.layout(t)[0]
                continue
            t = mod.resolve(t)
            if type(ix) is not int:
                raise Unsupported('symbolic index')
            if t[0] == 'a':
                if ix >= 1 << 63:
                    ix -= 1 << 64
                t = t[2]
                off += ix * mod.layout(t)[0]
            else:
                off += mod.struct(t)[1][ix]
                t = t[2][ix]
        if type(a) is not int:
            raise Unsupported('symbolic pointer')
        return a + off

    # ------------------------------------------------------------ scalar ops
    def binop(self, op, w, a, b):
        if type(a) is int and type(b) is int:
            M = (1 << w) - 1
            if op == 'add':
                return (a + b) & M
            if op == 'sub':
                return (a - b) & M
            if op == 'mul':
                return (a * b) & M
            if op == 'and':
                return a & b
            if op == 'or':
                return a | b
            if op == 'xor':
                return a ^ b
            if op == 'shl':
                return (a << b) & M if b < w else 0
            if op == 'lshr':
                return a >> b if b < w else 0
            if op == 'udiv':
                return a // b
            if op == 'urem':
                return a % b
            sa = a - (1 << w) if a >> (w - 1) else a
            sb = b - (1 << w) if b >> (w - 1) else b
            if op == 'ashr':
                return (sa >> b) & M
            if op == 'sdiv':
                q = abs(sa) // abs(sb)
                return (q if (sa < 0) == (sb < 0) else -q) & M
            if op == 'srem':
                r = abs(sa) % abs(sb)
                return (-r if sa < 0 else r) & M
        if a is UNDEF or b is UNDEF:
            return UNDEF
        return self.dom.binop(op, w, a, b)

    def icmp(self, pred, w, a, b):
        if type(a) is int and type(b) is int:
            if pred == 'eq':
                return int(a == b)
            if pred == 'ne':
                return int(a != b)
            if pred[0] == 's':
                a = a - (1 << w) if a >> (w - 1) else a
                b = b - (1 << w) if b >> (w - 1) else b
            return int({'gt': a > b, 'ge': a >= b, 'lt': a < b, 'le': a <= b}[pred[1:]])
        if a is UNDEF or b is UNDEF:
            raise Unsupported('icmp undef')
        if TOK is not None and (isinstance(a, TOK) or isinstance(b, TOK)):
            if pred not in ('eq', 'ne'):
                raise Unsupported('ordering of abstract elements')
            return tok_icmp(self, pred, a, b)
        return self.dom.icmp(pred, w, a, b)

    def cast(self, op, ft, v, tt):
        if op in ('ptrtoint', 'inttoptr', 'bitcast'):
            return v
        if v is UNDEF:
            return UNDEF
        fw, tw = ft[1], tt[1]
        if type(v) is int:
            if op == 'zext':
                return v
            if op == 'trunc':
                return v & ((1 << tw) - 1)
            if op == 'sext':
                if v >> (fw - 1):
                    v -= 1 << fw
                return v & ((1 << tw) - 1)
        if op == 'zext':
            return self.dom.zext(v, fw, tw)
        if op == 'sext':
            return self.dom.sext(v, fw, tw)
        return self.dom.trunc(v, fw, tw)

    def ite(self, c, a, b, mod, ty):
        """c symbolic i1"""
        return self.merge_vals(c, a, b, mod, ty, False)

    # ------------------------------------------------------------ merging
    def merge_vals(self, c, a, b, mod=None, ty=None, strict=True):
        if a is b:
            return a
        if a is UNDEF:
            return b
        if b is UNDEF:
            return a
        if isinstance(a, list):
            ty = mod.resolve(ty)
            if ty[0] == 'a':
                ts = [ty[2]] * ty[1]
            else:
                ts = ty[2]
            return [self.merge_vals(c, x, y, mod, t, strict) for x, y, t in zip(a, b, ts)]
        if ty is not None and ty[0] == 'i':
            w = ty[1]
        else:
            w = 64
        if type(a) is int and type(b) is int:
            if a == b:
                return a
            if self.tokspace is not None:
                t = self.tokspace.merge_words(c, a, b)
                if t is not None:
                    return t
            if is_addr(a) or is_addr(b):
                raise Unmergeable('addr')
            if strict and not self.merge_index and w == 64 and a < 4096 and b < 4096 and max(a, b) > 1:
                raise Unmergeable('index')
        if hasattr(a, 'merge'):
            return a.merge(self, c, b)
        if hasattr(b, 'merge'):
            return b.merge(self, self.dom.bnot(c), a)
        return self.dom.ite(c, a, b, w)

    def merge_states(self, c, s1, s2, pc):
        st = State()
        st.pc = pc
        if s1.extra is not s2.extra:
            if s1.extra is None or s2.extra is None or not hasattr(s1.extra, 'merge'):
                raise Unmergeable('extra')
            st.extra = s1.extra.merge(self, c, s2.extra)
        else:
            st.extra = s1.extra
        ids = set(s1.objs) | set(s2.objs)
        for i in ids:
            a = s1.objs.get(i)
            b = s2.objs.get(i)
            if a is b or b is None:
                st.objs[i] = a
                continue
            if a is None:
                st.objs[i] = b
                continue
            o = Obj(a.size, st.sid, a.name)
            ac, bc = a.cells, b.cells
            if {k: v[0] for k, v in ac.items()} != {k: v[0] for k, v in bc.items()}:
                # bring to a common shape
                ac, bc = self.common(a, b)
            for off, (s, v) in ac.items():
                w = bc.get(off)
                if w is None:
                    o.cells[off] = (s, v)
                elif w[1] is v or (type(v) is int and type(w[1]) is int and v == w[1]):
                    o.cells[off] = (s, v)
                else:
                    o.cells[off] = (s, self.merge_vals(c, v, w[1], None, ('i', 8 * s)))
            for off, w in bc.items():
                if off not in ac:
                    o.cells[off] = w
            st.objs[i] = o
        return st

    def common(self, a, b):
        ac, bc = dict(a.cells), dict(b.cells)

        def shatter(cells, off):
            s, v = cells.pop(off)
            for k in range(s):
                cells[off + k] = (1, self.byte_of(v, s, k))
        for x, y in ((ac, bc), (bc, ac)):
            # concrete bytes on one side opposite a wider cell on the other: join them
            for off, (sz, v) in list(x.items()):
                if sz > 1 and off not in y or off in y and y[off][0] < sz:
                    at, bs = off, []
                    while at < off + sz and at in y and type(y[at][1]) is int and at + y[at][0] <= off + sz:
                        bs += [(y[at][1] >> (8 * k)) & 0xff for k in range(y[at][0])]
                        at += y[at][0]
                    if at == off + sz:
                        for q in range(off, off + sz):
                            y.pop(q, None)
                        y[off] = (sz, int.from_bytes(bytes(bs), 'little'))
        changed = True
        while changed:
            changed = False
            for x, y in ((ac, bc), (bc, ac)):
                for off in list(x):
                    if off not in x:
                        continue
                    s, _ = x[off]
                    for c in range(off - 15, off + s):
                        w = y.get(c)
                        if w is not None and c + w[0] > off and (c, w[0]) != (off, s):
                            if s > 1:
                                shatter(x, off)
                            if w[0] > 1:
                                shatter(y, c)
                            changed = True
                            break
        return ac, bc

    # ------------------------------------------------------------ execution
    def run(self, fname, st, args):
        f = self.prog.funcs[fname]
        return self.exec_function(f, st, args)

    def panic(self, st, why):
        self.panics.append((st.pc, why))

    def exec_function(self, f, st, args):
        """-> list of (state, retval)"""
        if f.blocks is None:
            f.parse()
        self.called[f.name] = self.called.get(f.name, 0) + 1
        if self.depth > 300:
            raise Unsupported('recursion deeper than 300 calls in ' + f.name)
        self.depth += 1
        try:
            return self.exec_function2(f, st, args)
        finally:
            self.depth -= 1

    def exec_function2(self, f, st, args):
        regs = {}
        for (ty, nm), v in zip(f.params, args):
            regs[nm] = v
        regs['%allocas'] = ()
        pc0 = st.pc
        outs = self.exec_blocks(f, [(st, regs, f.entry, None)], None)
        res = []
        if len(outs) > 1:
            items = [(k, s, {'%ret': r['%ret'], '%allocas': r['%allocas']}, {}) for k, (s, r, _, _) in enumerate(outs)]
            outs = [(s, r, None, None) for s, r, _ in self.merge_items(items, pc0, f)]
        for s, r, _, _ in outs:
            for a in r['%allocas']:
                s.objs.pop((a - BASE) >> SHIFT, None)
            res.append((s, r['%ret']))
        return res

    def exec_blocks(self, f, work, stop):
        """run work items (state, regs, block, prev) until `stop` block (or return when None);
        -> list of (state, regs, stop, prev)"""
        out = []
        work = list(work)
        mod = f.mod
        while work:
            st, regs, blk, prev = work.pop()
            while True:
                if blk == stop and stop is not None:
                    out.append((st, regs, blk, prev))
                    break
                nxt = self.exec_block(f, mod, st, regs, blk, prev, work, out, stop)
                if nxt is None:
                    break
                prev, blk, st, regs = nxt
        return out

    def val(self, mod, regs, ty, v):
        k = v[0]
        if k == 'l':
            return regs[v[1]]
        if k == 'c':
            if ty[0] == 'i' and v[1] < 0:
                return v[1] & ((1 << ty[1]) - 1)
            return v[1]
        return self.const(mod, ty, v)

    def exec_block(self, f, mod, st, regs, blk, prev, work, out, stop):
        instrs = f.blocks[blk]
        self.steps += len(instrs)
        if self.steps > self.maxsteps:
            raise Unsupported('step budget exhausted')
        if self.deadline and (self.steps & 0x3ff) < len(instrs) and time.time() > self.deadline:
            raise Unsupported('time budget exhausted')
        i = 0
        n = len(instrs)
        # phis are parallel
        if instrs[0][0] == 'phi':
            new = {}
            while instrs[i][0] == 'phi':
                ins = instrs[i]
                if isinstance(prev, dict):
                    new[ins[1]] = prev[ins[1]]
                else:
                    for v, l in ins[3]:
                        if l == prev:
                            new[ins[1]] = self.val(mod, regs, ins[2], v)
                            break
                    else:
                        raise Unsupported('phi')
                i += 1
            regs.update(new)
        return self.exec_from(f, mod, st, regs, blk, i, work, out, stop)

    def exec_from(self, f, mod, st, regs, blk, i, work, out, stop):
        instrs = f.blocks[blk]
        n = len(instrs)
        val = self.val
        while i < n:
            ins = instrs[i]
            i += 1
            op = ins[0]
            if op == 'load':
                regs[ins[1]] = self.load_ty(st, mod, ins[2], val(mod, regs, ir.PTR, ins[3]))
            elif op == 'store':
                self.store_ty(st, mod, ins[2], val(mod, regs, ir.PTR, ins[4]), val(mod, regs, ins[2], ins[3]))
            elif op == 'gep':
                args = [val(mod, regs, at, av) for at, av in ins[3]]
                regs[ins[1]] = self.gep(mod, ins[2], args)
            elif op == 'bin':
                ty = ins[3]
                if ty[0] != 'i':
                    raise Unsupported('binop type %r' % (ty,))
                regs[ins[1]] = self.binop(ins[2], ty[1], val(mod, regs, ty, ins[4]), val(mod, regs, ty, ins[5]))
            elif op == 'cast':
                ft = mod.resolve(ins[3])
                regs[ins[1]] = self.cast(ins[2], ft, val(mod, regs, ft, ins[4]), mod.resolve(ins[5]))
            elif op == 'icmp':
                ty = ins[3]
                w = ty[1] if ty[0] == 'i' else 64
                regs[ins[1]] = self.icmp(ins[2], w, val(mod, regs, ty, ins[4]), val(mod, regs, ty, ins[5]))
            elif op == 'alloca':
                a = self.new_obj(st, mod.layout(ins[2])[0], f.name[-24:] + '/' + ins[1])
                regs[ins[1]] = a
                regs['%allocas'] = regs['%allocas'] + (a,)
            elif op == 'br':
                return (blk, ins[2], st, regs)
            elif op == 'cbr':
                c = val(mod, regs, ('i', 1), ins[2])
                if type(c) is int:
                    return (blk, ins[3] if c else ins[4], st, regs)
                if c is UNDEF:
                    raise Unsupported('branch on undef')
                if ins[3] == ins[4]:
                    return (blk, ins[3], st, regs)
                return self.branch(f, st, regs, blk, [(c, ins[3]), (self.dom.bnot(c), ins[4])], work, out, stop)
            elif op == 'switch':
                v = val(mod, regs, ins[2], ins[3])
                if type(v) is int:
                    w = ins[2][1]
                    t = ins[4]
                    for cv, l in ins[5]:
                        if cv & ((1 << w) - 1) == v:
                            t = l
                            break
                    return (blk, t, st, regs)
                w = ins[2][1]
                arms = []
                rest = None
                groups = {}
                for cv, l in ins[5]:
                    c = self.dom.icmp('eq', w, v, cv & ((1 << w) - 1))
                    if type(c) is int:
                        if c:
                            raise Unsupported('switch const')
                        continue
                    groups.setdefault(l, []).append(c)
                    rest = self.dom.bnot(c) if rest is None else self.dom.band(rest, self.dom.bnot(c))
                for l, cs in groups.items():
                    c = cs[0]
                    for x in cs[1:]:
                        c = self.dom.bor(c, x)
                    arms.append((c, l))
                if rest is None:
                    return (blk, ins[4], st, regs)
                arms.append((rest, ins[4]))
                return self.branch(f, st, regs, blk, arms, work, out, stop)
            elif op == 'call' or op == 'invoke':
                r = self.call(f, mod, st, regs, ins)
                if len(r) == 1:
                    st, rv = r[0]
                    if ins[1] is not None:
                        regs[ins[1]] = rv
                    if op == 'invoke':
                        return (blk, ins[6], st, regs)
                    continue
                if not r:
                    return None
                # several continuations
                for s2, rv in r[1:]:
                    r2 = dict(regs)
                    if ins[1] is not None:
                        r2[ins[1]] = rv
                    if op == 'invoke':
                        work.append((s2, r2, ins[6], blk))
                    else:
                        nx = self.exec_from(f, mod, s2, r2, blk, i, work, out, stop)
                        if nx is not None:
                            work.append((nx[2], nx[3], nx[1], nx[0]))
                st, rv = r[0]
                if ins[1] is not None:
                    regs[ins[1]] = rv
                if op == 'invoke':
                    return (blk, ins[6], st, regs)
            elif op == 'ret':
                regs['%ret'] = None if ins[3] is None else val(mod, regs, ins[2], ins[3])
                out.append((st, regs, None, blk))
                return None
            elif op == 'select':
                c = val(mod, regs, ('i', 1), ins[3])
                a = val(mod, regs, ins[2], ins[4])
                b = val(mod, regs, ins[2], ins[5])
                if type(c) is int:
                    regs[ins[1]] = a if c else b
                else:
                    regs[ins[1]] = self.ite(c, a, b, mod, ins[2])
            elif op == 'extractvalue':
                v = val(mod, regs, ins[2], ins[3])
                for k in ins[4]:
                    v = UNDEF if v is UNDEF else v[k]
                regs[ins[1]] = v
            elif op == 'insertvalue':
                v = val(mod, regs, ins[2], ins[3])
                e = val(mod, regs, ins[4], ins[5])
                regs[ins[1]] = self.insert(mod, mod.resolve(ins[2]), v, ins[6], e)
            elif op == 'unreachable':
                self.panic(st, 'unreachable in ' + f.name)
                return None
            elif op == 'copy':
                regs[ins[1]] = val(mod, regs, ins[2], ins[3])
            elif op == 'landingpad':
                raise Unsupported('landingpad')
            else:
                raise Unsupported('instruction %r' % (ins,))
        raise Unsupported('fell off block')

    def insert(self, mod, ty, v, idx, e):
        ty = mod.resolve(ty)
        n = len(ty[2]) if ty[0] == 's' else ty[1]
        v = [UNDEF] * n if v is UNDEF else list(v)
        if len(idx) == 1:
            v[idx[0]] = e
        else:
            sub = ty[2][idx[0]] if ty[0] == 's' else ty[2]
            v[idx[0]] = self.insert(mod, sub, v[idx[0]], idx[1:], e)
        return v

    def branch(self, f, st, regs, blk, arms, work, out, stop):
        """symbolic branch: arms = [(cond, label)]"""
        self.forks += 1
        live = []
        for c, l in arms:
            r = self.dom.feasible(st.pc, c)
            if not r:
                continue
            live.append((c, l))
        if not live:
            return None  # the path condition itself is unsatisfiable
        if len(live) == 1:
            # implied: no need to add to pc
            return (blk, live[0][1], st, regs)
        J = f.ipdom(blk)
        results = []
        for k, (c, l) in enumerate(live):
            last = k == len(live) - 1
            s2 = st if last else st.fork()
            r2 = regs if last else dict(regs)
            results.append((c, s2, r2, l))
        pc0 = results[0][1].pc
        arms_out = []
        for c, s2, r2, l in results:
            s2.pc = pc0 + (c,)
            if J is None:
                rs = self.exec_blocks(f, [(s2, r2, l, blk)], None)
            elif l == J:
                rs = [(s2, r2, l, blk)]
            else:
                rs = self.exec_blocks(f, [(s2, r2, l, blk)], J)
            arms_out.append((c, rs))
        if J is None:
            for c, rs in arms_out:
                out.extend(rs)
            return None
        # materialise phis of J for each result, so that merging does not depend on the predecessor
        mod = f.mod
        items = []
        for arm, (c, rs) in enumerate(arms_out):
            for (s, r, b, pv) in rs:
                ph = {}
                for ins in f.blocks[J]:
                    if ins[0] != 'phi':
                        break
                    if isinstance(pv, dict):
                        ph[ins[1]] = pv[ins[1]]
                    else:
                        for v, lb in ins[3]:
                            if lb == pv:
                                ph[ins[1]] = self.val(mod, r, ins[2], v)
                                break
                items.append((arm, s, r, ph))
        merged = self.merge_items(items, pc0, f)
        for s, r, ph in merged[1:]:
            if J == stop and stop is not None:
                out.append((s, r, J, ph))
            else:
                work.append((s, r, J, ph))
        if not merged:
            return None
        s, r, ph = merged[0]
        if J == stop and stop is not None:
            out.append((s, r, J, ph))
            return None
        return (ph, J, s, r)

    def merge_items(self, items, pc0, f):
        """greedy merge of states arriving at a join"""
        n0 = len(pc0)
        cur = []
        for c, s, r, ph in items:
            # condition distinguishing this item from the others: conjunction of pc suffix
            suffix = s.pc[n0:]
            g = suffix[0] if suffix else None
            for x in suffix[1:]:
                g = self.dom.band(g, x)
            done = False
            for k, (g2, s2, r2, ph2, arms2) in enumerate(cur):
                if c in arms2:
                    continue  # already tried at an inner join
                try:
                    if g is None or g2 is None:
                        raise Unmergeable('no guard')
                    ns = self.merge_states(g2, s2, s, pc0)
                    nr = {}
                    for kk in r2:
                        if kk in r:
                            a, b = r2[kk], r[kk]
                            if kk == '%allocas':
                                nr[kk] = tuple(dict.fromkeys(a + b))
                                continue
                            nr[kk] = a if a is b else self.merge_vals(g2, a, b, f.mod, f.regtype(kk))
                    nph = {kk: self.merge_vals(g2, ph2[kk], ph[kk], f.mod, f.regtype(kk)) for kk in ph2 if kk in ph}
                except Unmergeable as e:
                    if DEBUG:
                        print('unmergeable', e, f.name)
                    continue
                self.merges += 1
                cur[k] = (self.dom.bor(g2, g), ns, nr, nph, arms2 | {c})
                done = True
                break
            if not done:
                cur.append((g, s, r, ph, {c}))
        res = []
        for g, s, r, ph, _ in cur:
            if len(cur) == 1 and self.dom.is_total(items, g):
                s.pc = pc0
            else:
                s.pc = pc0 + ((g,) if g is not None else ())
            res.append((s, r, ph))
        return res

    # ------------------------------------------------------------ calls
    def call(self, f, mod, st, regs, ins):
        callee = ins[3]
        if callee[0] == 'asm':
            return [(st, UNDEF)]
        args = [self.val(mod, regs, at, av) for at, av in ins[4]]
        if callee[0] == 'g':
            name = callee[1]
        else:
            a = self.val(mod, regs, ir.PTR, callee)
            name = self.fbyaddr.get(a)
            if name is None:
                raise Unsupported('indirect call')
        return self.call_named(mod, name, st, args, ins)

    def call_named(self, mod, name, st, args, ins=None):
        if name.startswith('llvm.'):
            return [(st, self.intrinsic(name, st, args, ins))]
        h = self.hcache.get(name, 0)
        if h == 0:
            h = None
            d = self.prog.demangle(name)
            for rx, fn in self.hooks:
                if rx.search(d):
                    h = fn
                    break
            self.hcache[name] = h
        if h is not None:
            r = h(self, st, args, name)
        if h is not None and r is not NotImplemented:
            if isinstance(r, list) and (not r or isinstance(r[0], tuple)):
                return r
            return [(st, r)]
        fn = mod.funcs.get(name) or self.prog.funcs.get(name)
        if fn is not None:
            return self.exec_function(fn, st, args)
        return self.external(name, st, args)

    def external(self, name, st, args):
        d = self.prog.demangle(name)
        if '__rust_alloc_zeroed' in d:
            a = self.new_obj(st, args[0], 'heap')
            for k in range(args[0]):
                self.write(st, a + k, 1, 0)
            return [(st, a)]
        if '__rust_alloc' in d:
            if type(args[0]) is not int:
                raise Unsupported('symbolic allocation size')
            return [(st, self.new_obj(st, args[0], 'heap'))]
        if '__rust_dealloc' in d:
            return [(st, None)]
        if '__rust_realloc' in d:
            old, osz, al, nsz = args
            a = self.new_obj(st, nsz, 'heap')
            self.memcpy(st, a, old, min(osz, nsz))
            return [(st, a)]
        if name in ('memcmp', 'bcmp'):
            p, q, n = args
            if n == 0:
                return [(st, 0)]
            r = None
            w = 1
            if TOK is not None and n % 8 == 0 and any(isinstance(c[1], TOK) for a in (p, q) for c in self.obj(st, a)[0].cells.values()):
                w = 8
            for k in range(0, n, w):
                x, y = self.read(st, p + k, w), self.read(st, q + k, w)
                e = self.icmp('ne', 8 * w, x, y)
                r = e if r is None else self.dom.bor2(r, e)
            return [(st, self.cast('zext', ('i', 1), r, ('i', 32)))]
        if name in ('memcpy', 'memmove'):
            self.memcpy(st, args[0], args[1], args[2])
            return [(st, args[0])]
        if PANIC_RX.search(d):
            self.panic(st, d)
            return []
        raise Unsupported('external ' + d)

    def intrinsic(self, name, st, args, ins):
        if name.startswith(('llvm.memcpy', 'llvm.memmove')):
            if type(args[2]) is not int:
                raise Unsupported('symbolic memcpy length')
            self.memcpy(st, args[0], args[1], args[2])
            return None
        if name.startswith('llvm.memset'):
            p, v, n = args[:3]
            if type(n) is not int:
                raise Unsupported('symbolic memset length')
            for k in range(n):
                self.write(st, p + k, 1, v)
            return None
        if name.startswith(('llvm.lifetime', 'llvm.assume', 'llvm.dbg', 'llvm.experimental.noalias')):
            return None
        if name.startswith('llvm.expect'):
            return args[0]
        if name.startswith('llvm.trap'):
            raise Unsupported('trap')
        m = re.match(r'llvm\.([us])(add|sub|mul)\.with\.overflow\.i(\d+)', name)
        if m:
            w = int(m.group(3))
            a, b = args
            if m.group(1) == 'u':
                r = self.binop(m.group(2), w, a, b)
                if m.group(2) == 'add':
                    return [r, self.icmp('ult', w, r, a)]
                if m.group(2) == 'sub':
                    return [r, self.icmp('ult', w, a, b)]
            if type(a) is int and type(b) is int:
                sg = m.group(1) == 's'
                if sg:
                    a = a - (1 << w) if a >> (w - 1) else a
                    b = b - (1 << w) if b >> (w - 1) else b
                e = {'add': a + b, 'sub': a - b, 'mul': a * b}[m.group(2)]
                r = e & ((1 << w) - 1)
                back = r - (1 << w) if sg and r >> (w - 1) else r
                return [r, int(back != e)]
            return self.dom.with_overflow(m.group(1), m.group(2), w, a, b)
        m = re.match(r'llvm\.(umin|umax|ctpop|ctlz|cttz|bswap|fshl|fshr|uadd\.sat|usub\.sat|smin|smax|abs)\.i(\d+)', name)
        if m:
            w = int(m.group(2))
            op = m.group(1)
            a = args[0]
            if op in ('umin', 'umax', 'smin', 'smax'):
                c = self.icmp({'umin': 'ult', 'umax': 'ugt', 'smin': 'slt', 'smax': 'sgt'}[op], w, a, args[1])
                if type(c) is int:
                    return a if c else args[1]
                return self.ite(c, a, args[1], None, ('i', w))
            if op == 'usub.sat':
                c = self.icmp('ult', w, a, args[1])
                r = self.binop('sub', w, a, args[1])
                if type(c) is int:
                    return 0 if c else r
                return self.ite(c, 0, r, None, ('i', w))
            if op == 'uadd.sat':
                r = self.binop('add', w, a, args[1])
                c = self.icmp('ult', w, r, a)
                if type(c) is int:
                    return (1 << w) - 1 if c else r
                return self.ite(c, (1 << w) - 1, r, None, ('i', w))
            if op in ('fshl', 'fshr') and type(args[2]) is int:
                s = args[2] % w
                if op == 'fshr':
                    if s == 0:
                        return args[1]
                    s = w - s
                if s == 0:
                    return a
                return self.binop('or', w, self.binop('shl', w, a, s), self.binop('lshr', w, args[1], w - s))
            if type(a) is int:
                if op == 'ctpop':
                    return bin(a).count('1')
                if op == 'ctlz':
                    return w - a.bit_length()
                if op == 'cttz':
                    return w if a == 0 else (a & -a).bit_length() - 1
                if op == 'bswap':
                    return int.from_bytes(a.to_bytes(w // 8, 'little'), 'big')
            return self.dom.intrinsic(op, w, args)
        raise Unsupported('intrinsic ' + name)
