"""Verification-condition generator over goto programs built from the real C.

See DESIGN.md ("The engine") for the semantics implemented here.
"""
import sys
import heapq
import z3
from gotoir import Program, Unsupported, ns, nsid, subs, ety

sys.setrecursionlimit(200000)

BV = z3.BitVecVal
TRUE = z3.BoolVal(True)
FALSE = z3.BoolVal(False)
_keep = []
_nodes = {}


def is_c(t):
    return z3.is_bv_value(t)


def cval(t):
    return t.as_long()


def And(*a):
    r = []
    for x in a:
        if z3.is_true(x):
            continue
        if z3.is_false(x):
            return FALSE
        r.append(x)
    if not r:
        return TRUE
    if len(r) == 1:
        return r[0]
    return z3.And(*r)


def Or(*a):
    r = []
    for x in a:
        if z3.is_false(x):
            continue
        if z3.is_true(x):
            return TRUE
        r.append(x)
    if not r:
        return FALSE
    if len(r) == 1:
        return r[0]
    return z3.Or(*r)


def Not(a):
    if z3.is_true(a):
        return FALSE
    if z3.is_false(a):
        return TRUE
    if z3.is_not(a):
        return a.arg(0)
    return z3.Not(a)


def Implies(a, b):
    return Or(Not(a), b)


def Ite(c, a, b):
    if z3.is_true(c):
        return a
    if z3.is_false(c):
        return b
    if a.eq(b):
        return a
    if z3.is_bool(a):
        if z3.is_true(a) and z3.is_false(b):
            return c
        if z3.is_false(a) and z3.is_true(b):
            return Not(c)
    if z3.is_not(c):
        return z3.If(c.arg(0), b, a)
    return z3.If(c, a, b)


def Eq(a, b):
    if a.eq(b):
        return TRUE
    if z3.is_bool(a):
        if z3.is_true(a):
            return b
        if z3.is_true(b):
            return a
        if z3.is_false(a):
            return Not(b)
        if z3.is_false(b):
            return Not(a)
        return a == b
    if is_c(a) and is_c(b):
        return TRUE if cval(a) == cval(b) else FALSE
    # (ite c k1 k2) == k
    for x, y in ((a, b), (b, a)):
        if is_c(y) and x.decl().kind() == z3.Z3_OP_ITE:
            t, e = x.arg(1), x.arg(2)
            if is_c(t) and is_c(e):
                te, ee = cval(t) == cval(y), cval(e) == cval(y)
                if te and ee:
                    return TRUE
                if te:
                    return x.arg(0)
                if ee:
                    return Not(x.arg(0))
                return FALSE
            if is_c(t):
                r = Eq(e, y)
                return Or(x.arg(0), r) if cval(t) == cval(y) else And(Not(x.arg(0)), r)
            if is_c(e):
                r = Eq(t, y)
                return Or(Not(x.arg(0)), r) if cval(e) == cval(y) else And(x.arg(0), r)
    return a == b


def add64(a, b):
    if is_c(a) and is_c(b):
        return BV((cval(a) + cval(b)) & ((1 << 64) - 1), 64)
    if is_c(b):
        a, b = b, a
    if is_c(a):
        if cval(a) == 0:
            return b
        if b.decl().kind() == z3.Z3_OP_BADD and b.num_args() == 2 and is_c(b.arg(0)):
            return add64(BV((cval(a) + cval(b.arg(0))) & ((1 << 64) - 1), 64), b.arg(1))
    return a + b


class Node(object):
    __slots__ = ('kind', 'a', 'cache', 'nid', 'depth')
    count = 0

    def __init__(self, kind, *a):
        self.kind = kind
        self.a = a
        self.cache = {}
        Node.count += 1
        self.nid = Node.count
        _nodes[self.nid] = self


class State(object):
    __slots__ = ('pc', 'env', 'mem', 'ev', 'abs')

    def copy(self):
        s = State()
        s.pc = self.pc
        s.env = dict(self.env)
        s.mem = dict(self.mem)
        s.ev = self.ev
        s.abs = self.abs
        return s


class LV(object):
    __slots__ = ('env', 'addr', 'ty', 'key', 'fld', 'un')

    def __init__(self, ty, env=None, addr=None, key=None):
        self.ty = ty
        self.env = env
        self.addr = addr
        self.key = key
        self.fld = None        # innermost struct member this lvalue is (part of)
        self.un = False        # inside a union


class Obligation(object):
    __slots__ = ('name', 'kind', 'func', 'line', 'file', 'guard', 'cond', 'nfacts', 'result', 'time', 'solver', 'info', 'model')


class Restart(Exception):
    pass


OBJ_G = 0x40000000
OBJ_C = 0x60000000
OBJ_L = 0x80000000
M64 = (1 << 64) - 1


class Engine(object):
    def __init__(self, prog, cfg):
        self.p = prog
        self.cfg = cfg
        self.objids = {}
        self.objsize = {}
        self.staticlocal = set()
        self.scalarlocal = set()
        self.bigterms = {}
        self.nextobj = {OBJ_G: OBJ_G, OBJ_C: OBJ_C, OBJ_L: OBJ_L}
        self.loopmods = {}
        self.loopmode = dict(cfg.get('loopmode', {}))
        self.ptrmode = {}
        self.consttab = {}     # obj id -> {(key, off): term}
        self.noeffect = set(cfg.get('noeffect', ())) | {'log_write'}
        self.footprints = {}
        self.stubs = {}
        self.used_contracts = set()
        self.used_havoc = set()
        self.used_noeffect = set()
        self.used_builtins = set()
        self.inlined = set()
        self.bounded_loops = {}
        self.havoc_loops = set()
        self.inv_loops = set()
        self.rootcache = {}
        self.tabcache = {}
        self.assume_used = set()

    # ---------------------------------------------------------------- objects
    def objid(self, key, cls, size=None):
        if key not in self.objids:
            self.nextobj[cls] += 1
            self.objids[key] = self.nextobj[cls]
        if size is not None:
            self.objsize[self.objids[key]] = size
        return self.objids[key]

    def objaddr(self, oid):
        return BV(oid << 32, 64)

    def fresh(self, name, sort):
        self.nfresh += 1
        t = z3.Const('%s!%d' % (name, self.nfresh), sort)
        return t

    def fact(self, f):
        if z3.is_true(f):
            return
        if self.qvars:
            if self._mentions(f, self.qvars):
                return
        self.facts.append(f)

    def _mentions(self, f, names):
        seen = set()
        st = [f]
        while st:
            x = st.pop()
            if x.get_id() in seen:
                continue
            seen.add(x.get_id())
            if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED and x.decl().name() in names:
                return True
            st.extend(x.children())
        return False

    # ---------------------------------------------------------------- sorts
    def sort(self, t):
        if t['id'] == 'bool':
            return z3.BoolSort()
        if t['id'] == 'floatbv':
            return z3.BitVecSort(self.p.width(t))
        return z3.BitVecSort(self.p.width(t))

    def gkey(self, t):
        if t['id'] == 'pointer':
            return 't:ptr'
        if t['id'] == 'bool':
            return 't:bool'
        return 't:%d' % self.p.width(t)

    def keysort(self, key):
        s = self.keysorts.get(key)
        return s

    # ---------------------------------------------------------------- memory
    def node(self, st, key, sort, isptr, rd=True):
        self.keysorts[key] = (sort, isptr)
        if rd and self.reading is not None:
            self.reading.add(key if self.readfld is None else key + '\x01' + self.readfld)
        n = st.mem.get(key)
        if n is None:
            b = self.bases.get(key)
            if b is None:
                b = Node('base', self.mkbase(key + '@0', sort), isptr)
                self.bases[key] = b
            n = self.replay(st.ev, key, b)
            st.mem[key] = n
        return n

    def mkbase(self, name, sort):
        return z3.Function(name, z3.BitVecSort(64), sort)

    def replay(self, ev, key, b):
        if ev is None:
            return b
        memo = ev[3]
        if key in memo:
            return memo[key]
        kind = ev[0]
        prev = self.replay(ev[1], key, b) if kind != 'ite' else None
        if kind == 'havoc':
            r = self.havoc_node(prev, key, ev[2], ev[4])
        elif kind == 'zero':
            sort, isptr = self.keysorts[key]
            z = FALSE if sort == z3.BoolSort() else BV(0, sort.size())
            r = Node('fillc', prev, ev[2], z, key)
        elif kind == 'ite':
            n1 = self.replay(ev[1], key, b)
            n2 = self.replay(ev[5], key, b)
            r = n1 if n1 is n2 else Node('ite', ev[2], n1, n2)
        memo[key] = r
        return r

    def havoc_node(self, prev, key, cond, tag):
        sort, isptr = self.keysorts[key]
        f = self.mkbase('%s@%s' % (key, tag), sort)
        return Node('havoc', prev, cond, f, isptr, key)

    def bits_node(self, prev, key, cond, mask, tag):
        sort, isptr = self.keysorts[key]
        return Node('bits', prev, cond, self.mkbase('%s@%s' % (key, tag), sort), mask, key)

    def frame_mask(self, key):
        """the bits of map key that the assigns clause leaves writable, if that is all it says about the map"""
        if self.frame is None or not key.startswith('f:'):
            return None
        m = None
        for f in self.frame:
            if f[0] in ('all', 'obj') or (f[0] in ('range', 'addr') and f[2] in (None, key)):
                return None
            if f[0] == 'field' and f[1] == key:
                if f[4] is None or not z3.is_true(f[2]):
                    return None
                m = (m or 0) | f[4]
        return m

    def event(self, st, kind, cond, tag):
        """kind over every map: cond is a python function addr -> Bool"""
        memo = {}
        st.ev = (kind, st.ev, cond, memo, tag)
        for key in list(st.mem):
            prev = st.mem[key]
            if kind == 'havoc':
                st.mem[key] = self.havoc_node(prev, key, cond, tag)
            else:
                sort, isptr = self.keysorts[key]
                z = FALSE if sort == z3.BoolSort() else BV(0, sort.size())
                st.mem[key] = Node('fillc', prev, cond, z, key)

    def root(self, t):
        """('o', objid) | ('n', id) | None"""
        k = t.get_id()
        r = self.rootcache.get(k)
        if r is not None:
            return r[1]
        r = self._root(t)
        self.rootcache[k] = (t, r)
        return r

    def _root(self, t):
        if is_c(t):
            hi = cval(t) >> 32
            if hi == 0 or hi == 0xffffffff:
                return None
            return ('o', hi)
        if t.get_id() in self.nonlocals:
            return ('n', t.get_id())
        k = t.decl().kind()
        if k == z3.Z3_OP_BADD:
            rs = [self.root(c) for c in t.children()]
            rs = [x for x in rs if x]
            if len(rs) == 1:
                return rs[0]
            return None
        if k == z3.Z3_OP_ITE:
            a, b = self.root(t.arg(1)), self.root(t.arg(2))
            if a and b and a == b:
                return a
            if a and b and a[0] == 'n' and b[0] == 'n':
                return ('n', t.get_id())
            for x, y in ((t.arg(1), b), (t.arg(2), a)):
                if is_c(x) and cval(x) == 0 and y and y[0] == 'n':
                    return ('n', t.get_id())
            return None
        return None

    def addr_eq(self, a, b):
        if a.eq(b):
            return TRUE
        if is_c(a) and is_c(b):
            return TRUE if cval(a) == cval(b) else FALSE
        k = (a.get_id(), b.get_id())
        r = self.aeqmemo.get(k)
        if r is None:
            r = self.aeqmemo[k] = (self.addr_eq1(a, b), a, b)
        return r[0]

    def addr_eq1(self, a, b):
        fa = self.fieldof(a)
        if fa is not None:
            fb = self.fieldof(b)
            if fb is not None and fa != fb:
                return FALSE
        ra, rb = self.root(a), self.root(b)
        if ra and rb:
            if ra[0] == 'o' and rb[0] == 'o' and ra[1] != rb[1]:
                return FALSE
            if ra[0] != rb[0]:
                o = ra[1] if ra[0] == 'o' else rb[1]
                if o >= OBJ_L or o in self.staticlocal and self.cfg.get('static_private'):
                    return FALSE
        oa, ob = self.split(a), self.split(b)
        if oa[0] is not None and ob[0] is not None and oa[0].eq(ob[0]):
            return TRUE if oa[1] == ob[1] else FALSE
        for x, y in ((a, b), (b, a)):
            if x.decl().kind() == z3.Z3_OP_ITE:
                e1 = self.addr_eq(x.arg(1), y)
                if not (z3.is_true(e1) or z3.is_false(e1)):
                    continue
                e2 = self.addr_eq(x.arg(2), y)
                if z3.is_false(e1) and z3.is_false(e2):
                    return FALSE
                if (z3.is_true(e1) or z3.is_false(e1)) and (z3.is_true(e2) or z3.is_false(e2)):
                    return Ite(x.arg(0), e1, e2)
        return a == b

    def split(self, t):
        if is_c(t):
            return (None, cval(t))
        if t.decl().kind() == z3.Z3_OP_BADD and t.num_args() == 2 and is_c(t.arg(0)):
            return (t.arg(1), cval(t.arg(0)))
        return (t, 0)

    def read(self, n, addr):
        """term for map node n at addr"""
        k = addr.get_id()
        c = n.cache.get(k)
        if c is not None:
            return c[1]
        start = n
        pend = []
        while True:
            c = n.cache.get(k)
            if c is not None:
                r = c[1]
                break
            kind = n.kind
            if kind == 'store':
                e = self.addr_eq(n.a[1], addr)
                if z3.is_true(e):
                    r = n.a[2]
                    break
                if not z3.is_false(e):
                    pend.append((e, n.a[2], n))
                n = n.a[0]
                continue
            if kind == 'base':
                r = self.baseread(n.a[0], addr, n.a[1])
                break
            if kind == 'havoc':
                c0 = n.a[1](addr, n.a[4])
                if z3.is_true(c0):
                    r = self.baseread(n.a[2], addr, n.a[3])
                    break
                if not z3.is_false(c0):
                    pend.append((c0, self.baseread(n.a[2], addr, n.a[3]), n))
                n = n.a[0]
                continue
            if kind == 'fillc':
                c0 = n.a[1](addr, n.a[3])
                if z3.is_true(c0):
                    r = n.a[2]
                    break
                if not z3.is_false(c0):
                    pend.append((c0, n.a[2], n))
                n = n.a[0]
                continue
            if kind == 'copy':
                # prev, dst, len(BV64 bytes), srcnode, src
                prev, dst, ln, sn, src = n.a
                c0 = self.inrange(addr, dst, ln)
                if z3.is_true(c0):
                    r = self.read(sn, self.shift(addr, dst, src))
                    break
                if not z3.is_false(c0):
                    pend.append((c0, self.read(sn, self.shift(addr, dst, src)), n))
                n = prev
                continue
            if kind == 'ite':
                r = Ite(n.a[0], self.read(n.a[1], addr), self.read(n.a[2], addr))
                n.cache[k] = (addr, r)
                break
            if kind == 'bits':
                # only the bits of the mask may have changed
                r = self.read(n.a[0], addr)
                m = BV(n.a[3], r.size())
                r = Ite(n.a[1], (r & ~m) | (self.baseread(n.a[2], addr, False) & m), r)
                n.cache[k] = (addr, r)
                break
            raise Unsupported('node ' + kind)
        for e, v, nn in reversed(pend):
            r = Ite(e, v, r)
            nn.cache[k] = (addr, r)
        start.cache[k] = (addr, r)
        return r

    def shift(self, addr, dst, src):
        if is_c(addr) and is_c(dst):
            return add64(BV((cval(addr) - cval(dst)) & M64, 64), src)
        sa, sd = self.split(addr), self.split(dst)
        if sa[0] is not None and sd[0] is not None and sa[0].eq(sd[0]):
            return add64(BV((sa[1] - sd[1]) & M64, 64), src)
        return add64(z3.simplify(addr - dst), src)

    def inrange(self, addr, dst, ln):
        if is_c(addr) and is_c(dst) and is_c(ln):
            d = (cval(addr) - cval(dst)) & M64
            return TRUE if d < cval(ln) else FALSE
        ra, rb = self.root(addr), self.root(dst)
        if ra and rb:
            if ra[0] == 'o' and rb[0] == 'o' and ra[1] != rb[1]:
                return FALSE
            if ra[0] != rb[0]:
                o = ra[1] if ra[0] == 'o' else rb[1]
                if o >= OBJ_L or o in self.staticlocal and self.cfg.get('static_private'):
                    return FALSE
        sa, sd = self.split(addr), self.split(dst)
        if is_c(ln) and sa[0] is not None and sd[0] is not None and sa[0].eq(sd[0]):
            d = (sa[1] - sd[1]) & M64
            return TRUE if d < cval(ln) else FALSE
        return z3.ULT(addr - dst, ln)

    def baseread(self, f, addr, isptr):
        if self.root(addr) and self.root(addr)[0] == 'o':
            v = None
        v = f(addr)
        if isptr:
            self.mark_nonlocal(v)
        return v

    def mark_nonlocal(self, v):
        if v.get_id() in self.nonlocals:
            return
        self.nonlocals[v.get_id()] = v
        self.rootcache.pop(v.get_id(), None)
        self.fact(z3.Extract(63, 63, v) == BV(0, 1))

    def tagfield(self, a, fld):
        """a is the address of (part of) struct member fld: never equal to an address tagged
        with another member (objects are accessed through their own types)"""
        k = a.get_id()
        o = self.fld.get(k)
        if o is None:
            self.fld[k] = (a, fld)
        elif o[1] != fld:
            self.fld[k] = (a, None)

    def fieldof(self, a):
        o = self.fld.get(a.get_id())
        return o[1] if o else None

    # loads and stores of scalars
    def load(self, st, lv):
        t = lv.ty
        if lv.env is not None:
            v = st.env.get(lv.env)
            if v is None:
                v = self.fresh_env(st, lv.env, t)
            if self.reading is not None:
                self.reading.add('e:' + lv.env)
            return v
        if t['id'] in ('array', 'struct_tag', 'union_tag', 'struct', 'union', 'code'):
            raise Unsupported('load of aggregate')
        key = lv.key or self.gkey(t)
        r = self.root(lv.addr)
        if r and r[0] == 'o' and OBJ_C <= r[1] < OBJ_L:
            v = self.loadconst(r[1], key, lv.addr, t)
            if v is not None:
                return v
        v = self.constite(st, lv.addr, key, t)
        if v is not None:
            return v
        if lv.fld is not None and lv.key is None:
            self.tagfield(lv.addr, lv.fld)
            self.readfld = lv.fld
            n = self.node(st, key, self.sort(t), t['id'] == 'pointer')
            self.readfld = None
            return self.read(n, lv.addr)
        return self.read(self.node(st, key, self.sort(t), t['id'] == 'pointer'), lv.addr)

    def fresh_env(self, st, name, t):
        if name.startswith('g:'):
            v = self.ginit.get(name)
            if v is None:
                v = z3.Const(name, self.sort(t))
                self.ginit[name] = v
                if t['id'] == 'pointer':
                    self.mark_nonlocal(v)
            # havoc events change it
            v = self.replay_env(st.ev, name, v, t)
        else:
            v = self.fresh('undef_' + name, self.sort(t))
        st.env[name] = v
        return v

    def replay_env(self, ev, name, v, t):
        if ev is None or self.isghost(name):
            return v
        if ev[0] == 'ite':
            return Ite(ev[2], self.replay_env(ev[1], name, v, t), self.replay_env(ev[5], name, v, t))
        if ev[0] == 'havoc' and ev[4].startswith('all'):
            k = 'env:' + name
            if k not in ev[3]:
                x = z3.Const('%s@%s' % (name, ev[4]), self.sort(t))
                if t['id'] == 'pointer':
                    self.mark_nonlocal(x)
                ev[3][k] = x
            return ev[3][k]
        return self.replay_env(ev[1], name, v, t)

    def constite(self, st, addr, key, t):
        """a choice between constant objects: (off +) (ite c k1 k2)"""
        off, x = 0, addr
        if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_BADD and x.num_args() == 2 and is_c(x.arg(0)):
            off, x = cval(x.arg(0)), x.arg(1)
        if not (z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and (is_c(x.arg(1)) or is_c(x.arg(2)))):
            return None
        vs = []
        for k in (1, 2):
            if not is_c(x.arg(k)):
                vs.append(self.load(st, LV(t, addr=add64(x.arg(k), BV(off, 64)), key=key)))
                continue
            a = BV(cval(x.arg(k)) + off, 64)
            o = cval(a) >> 32
            if not OBJ_C <= o < OBJ_L:
                return None
            vs.append(self.loadconst(o, key, a, t))
        if vs[0] is None and vs[1] is None:
            return None
        for k in (0, 1):
            if vs[k] is None:            # beyond the end of the shorter one
                vs[k] = self.fresh('beyond', self.sort(t))
        return Ite(x.arg(0), vs[0], vs[1])

    def loadconst(self, oid, key, addr, t):
        tab = self.consttab.get(oid)
        if tab is None:
            return None
        key = self.gkey(t)
        ck = (oid, key, addr.get_id())
        c = self.tabcache.get(ck)
        if c is not None:
            return c[1]
        base = oid << 32
        if is_c(addr):
            v = tab.get((key, cval(addr) - base))
            if v is None:
                return None
        else:
            ents = sorted((o, x) for (k, o), x in tab.items() if k == key)
            if not ents or len(ents) > 6000:
                return None
            off = z3.simplify(z3.Extract(31, 0, addr - BV(base, 64)))
            # restrict to the stride class of the address if it is recognisable
            runs = []
            step = {}
            # group into runs of equal values (elements at irregular offsets stay separate)
            for o, x in ents:
                if runs and runs[-1][2].eq(x):
                    runs[-1][1] = o
                else:
                    runs.append([o, o, x])
            v = runs[-1][2]
            if len(runs) > 40:
                # balanced search tree
                def tree(lo, hi):
                    if lo == hi:
                        return runs[lo][2]
                    m = (lo + hi) // 2
                    return Ite(z3.ULE(off, BV(runs[m][1], 32)), tree(lo, m), tree(m + 1, hi))
                v = tree(0, len(runs) - 1)
            else:
                for lo, hi, x in reversed(runs[:-1]):
                    v = Ite(z3.ULE(off, BV(hi, 32)), x, v)
        self.tabcache[ck] = (addr, v)
        return v

    def store(self, st, lv, v, check=True):
        t = lv.ty
        if lv.env is not None:
            self.note_mod(st, ('env', lv.env, t))
            if lv.env.startswith('g:') and check:
                self.frame_env(st, lv.env)
            st.env[lv.env] = v
            return
        key = lv.key or self.gkey(t)
        n = self.node(st, key, self.sort(t), t['id'] == 'pointer')
        fld = None
        if lv.fld is not None and lv.key is None:
            self.tagfield(lv.addr, lv.fld)
            fld = lv.fld
        self.note_mod(st, ('mem', key, self.modroot(lv.addr), fld))
        if check:
            self.frame_mem(st, lv.addr, key, self.p.bits(t) // 8 if t['id'] != 'c_bit_field' else 1, v)
        st.mem[key] = Node('store', n, lv.addr, v)

    # ---------------------------------------------------------------- frame
    def frame_env(self, st, name):
        if self.frame is None or self.specmode:
            return
        if '::' in name:
            return               # function-local static
        if name == 'g:log_inassert':
            return               # set on the way into abort()
        c = [f[1] for f in self.frame if f[0] == 'all']
        c += [TRUE if f[2] is True else f[2] for f in self.frame if f[0] == 'env' and f[1] == name]
        c = Or(*c)
        if not z3.is_true(c):
            self.oblige(st, 'frame', c, 'assigns ' + name)

    def frame_cond(self, addr, key, st=None, v=None, over=False):
        """Bool: may addr be written under the assigns clause of the verified function"""
        r = self.root(addr)
        if r and r[0] == 'o' and (r[1] >= OBJ_L or r[1] in self.staticlocal):
            return TRUE
        if self.frame is None:
            return TRUE
        c = []
        for f in self.frame:
            if f[0] == 'all':
                c.append(f[1])
            elif f[0] == 'field' and f[1] == key:
                if f[4] is None or over:
                    c.append(f[2])
                elif v is not None:
                    cur = self.read(st.mem[key], addr)
                    c.append(And(f[2], Eq((v ^ cur) & BV(~f[4] & ((1 << v.size()) - 1), v.size()), BV(0, v.size()))))
            elif f[0] == 'addr' and (f[2] == key):
                c.append(And(f[3], self.addr_eq(f[1], addr)))
            elif f[0] == 'range' and (f[2] is None or f[2] == key):
                c.append(And(f[3], self.inrange(addr, f[1], f[4])))
            elif f[0] == 'obj':
                c.append(And(f[2], Eq(z3.Extract(63, 32, f[1]), z3.Extract(63, 32, addr))))
        return Or(*c)

    def frame_mem(self, st, addr, key, n, v=None):
        if self.frame is None or self.specmode:
            return
        c = self.frame_cond(addr, key, st, v)
        if not z3.is_true(c):
            if not (r := self.root(addr)):
                # the address may be a local object
                c = Or(c, z3.Extract(63, 63, addr) == BV(1, 1))
            self.oblige(st, 'frame', c, 'write to %s outside assigns clause' % key)

    def note_mod(self, st, m):
        for l in st.abs:
            s = self.loopmods.setdefault(l, {})
            mk = m[:2] if m[0] == 'env' else m
            if mk not in s:
                s[mk] = m
                self.dirty = True

    # ---------------------------------------------------------------- lvalues
    def lvalue(self, e, st, fr):
        i = e['id']
        t = ety(e)
        if i == 'symbol':
            return self.symlv(nsid(e, 'identifier'), t, st, fr)
        if i == 'dereference':
            a = self.eval(subs(e)[0], st, fr)
            return LV(t, addr=a)
        if i == 'member':
            b = subs(e)[0]
            blv = self.lvalue(b, st, fr)
            bt = ety(b)
            name = nsid(e, 'component_name')
            ct, off = self.p.component(bt, name)
            tag = self.p.tagname(bt)
            lv = LV(ct, addr=None)
            if blv.env is not None:
                raise Unsupported('member of env')
            kk = '%s.%s' % (tag, name)
            isun = self.p.resolve(bt)['id'] == 'union'
            lv.un = blv.un or isun
            if not lv.un and tag is not None:
                lv.fld = kk
            if not isun and tag is not None and kk not in self.p.esc_fields and not self.p.is_agg(ct):
                lv.addr = add64(blv.addr, BV(off, 64))
                lv.key = 'f:' + kk
                self.keysorts.setdefault(lv.key, None)
                if self.keysorts[lv.key] is None:
                    self.keysorts[lv.key] = (self.sort(ct), ct['id'] == 'pointer')
            elif not isun and tag is not None and kk not in self.p.esc_fields and ct['id'] == 'array' \
                    and not self.p.is_agg(subs(ct)[0]):
                lv.addr = add64(blv.addr, BV(off, 64))
                lv.key = 'a:' + kk
            else:
                lv.addr = add64(blv.addr, BV(off, 64))
            if lv.fld and ct['id'] == 'array' and off and self.cfg.get('field_arrays') and not self.p.is_agg(subs(ct)[0]):
                self.tagfield(lv.addr, kk)
            return lv
        if i == 'index':
            b = subs(e)[0]
            bt = ety(b)
            idx = self.eval(subs(e)[1], st, fr)
            idx = self.toint64(idx, ety(subs(e)[1]))
            if bt['id'] == 'pointer':
                a = self.eval(b, st, fr)
                el = t
                return LV(el, addr=self.padd(a, idx, el))
            blv = self.lvalue(b, st, fr)
            el = subs(bt)[0]
            self.bounds(st, bt, idx, e)
            lv = LV(el, addr=self.padd(blv.addr, idx, el))
            lv.un = blv.un
            if not self.p.is_agg(el):
                lv.fld = blv.fld
                if blv.key:
                    lv.key = blv.key
            return lv
        if i == 'string_constant':
            return LV(t, addr=self.strconst(e))
        if i == 'typecast':
            lv = self.lvalue(subs(e)[0], st, fr)
            return LV(t, addr=lv.addr)
        if i in ('struct', 'array', 'union'):
            raise Unsupported('lvalue of constructor')
        if i == 'side_effect':
            v = self.eval(e, st, fr)
            raise Unsupported('lvalue of side effect')
        if i == 'if':
            c = self.tobool(self.eval(subs(e)[0], st, fr))
            a = self.lvalue(subs(e)[1], st, fr)
            b = self.lvalue(subs(e)[2], st, fr)
            return LV(t, addr=Ite(c, a.addr, b.addr), key=a.key if a.key == b.key else None)
        raise Unsupported('lvalue ' + i)

    def bounds(self, st, bt, idx, e):
        if not self.cfg.get('bounds') or self.specmode:
            return
        n = self.p.arraylen(bt)
        if n is None or n <= 1:
            return
        c = z3.ULT(idx, BV(n, 64)) if not is_c(idx) else (TRUE if cval(idx) < n else FALSE)
        if not z3.is_true(c):
            self.oblige(st, 'bounds', c, 'array index within [0,%d)' % n)

    def symlv(self, ident, t, st, fr):
        if ident in fr.subst:
            x = fr.subst[ident]
            if isinstance(x, LV):
                return x
            return LV(t, env=fr.bindname(ident))
        sym = self.p.symbols.get(ident)
        if t is None or (sym and t['id'] == 'array' and self.p.arraylen(t) is None):
            t = sym['type'] if sym else t
        if sym is not None and (sym.get('isStaticLifetime') or ident.startswith('string_literal')):
            if t['id'] == 'code':
                return LV(t, addr=self.objaddr(self.objid(('f', ident), OBJ_C)))
            if self.p.is_agg(t) or ident in self.p.esc_syms:
                self.ensure_const(ident, sym)
                isconst = ident in self.constsyms
                oid = self.objid(('g', ident), OBJ_C if isconst else OBJ_G)
                if '::' in ident:
                    self.staticlocal.add(oid)
                lv = LV(t, addr=self.objaddr(oid))
                if t['id'] == 'array' and ident not in self.p.esc_syms and not self.p.is_agg(subs(t)[0]):
                    lv.key = 's:' + ident
                return lv
            return LV(t, env='g:' + ident)
        if sym is not None and sym['type']['id'] == 'code' or (t is not None and t['id'] == 'code'):
            return LV(t, addr=self.objaddr(self.objid(('f', ident), OBJ_C)))
        if self.p.is_agg(t) or ident in self.p.esc_syms:
            oid = self.objid(('l', fr.path, ident), OBJ_L)
            if not self.p.is_agg(t) and t['id'] != 'array':
                self.scalarlocal.add(oid)
            lv = LV(t, addr=self.objaddr(oid))
            if t['id'] == 'array' and ident not in self.p.esc_syms and not self.p.is_agg(subs(t)[0]):
                lv.key = 's:' + ident
            return lv
        return LV(t, env=fr.path + '|' + ident)

    def padd(self, a, idx, el):
        sz = 1 if el['id'] in ('empty', 'code') else self.p.size(el)
        if is_c(idx):
            return add64(a, BV((cval(idx) * sz) & M64, 64))
        if sz == 1:
            return add64(a, idx)
        # idx = const + x
        if idx.decl().kind() == z3.Z3_OP_BADD and idx.num_args() == 2 and is_c(idx.arg(0)):
            return add64(add64(a, BV((cval(idx.arg(0)) * sz) & M64, 64)), self.mulc(idx.arg(1), sz))
        return add64(a, self.mulc(idx, sz))

    def mulc(self, x, sz):
        if sz & (sz - 1) == 0:
            return x << BV(sz.bit_length() - 1, 64)
        return x * BV(sz, 64)

    def toint64(self, v, t):
        if z3.is_bool(v):
            return Ite(v, BV(1, 64), BV(0, 64))
        w = v.size()
        if w == 64:
            return v
        return self.ext(v, 64, self.p.signed(t))

    def ext(self, v, w, signed):
        s = v.size()
        if is_c(v):
            x = cval(v)
            if signed and s < w and x >> (s - 1):
                x |= ((1 << w) - 1) ^ ((1 << s) - 1)
            return BV(x & ((1 << w) - 1), w)
        if s == w:
            return v
        if s > w:
            if v.decl().kind() in (z3.Z3_OP_SIGN_EXT, z3.Z3_OP_ZERO_EXT):
                inner = v.arg(0)
                if inner.size() == w:
                    return inner
                if inner.size() > w:
                    return self.ext(inner, w, False)
                return self.ext(inner, w, v.decl().kind() == z3.Z3_OP_SIGN_EXT)
            if v.decl().kind() == z3.Z3_OP_ITE and (is_c(v.arg(1)) or is_c(v.arg(2))):
                return Ite(v.arg(0), self.ext(v.arg(1), w, signed), self.ext(v.arg(2), w, signed))
            return z3.Extract(w - 1, 0, v)
        if v.decl().kind() == z3.Z3_OP_ITE and is_c(v.arg(1)) and is_c(v.arg(2)):
            return Ite(v.arg(0), self.ext(v.arg(1), w, signed), self.ext(v.arg(2), w, signed))
        if v.decl().kind() == z3.Z3_OP_ZERO_EXT:
            return self.ext(v.arg(0), w, False)
        return z3.SignExt(w - s, v) if signed else z3.ZeroExt(w - s, v)

    def strconst(self, e):
        s = nsid(e, 'value', '')
        key = ('str', s)
        new = key not in self.objids
        oid = self.objid(key, OBJ_C)
        if new:
            b = s.encode('latin-1', 'replace') if all(ord(c) < 256 for c in s) else s.encode('utf-8')
            tab = {}
            for k, c in enumerate(b + b'\0'):
                tab[('t:8', k)] = BV(c, 8)
            self.consttab[oid] = tab
            self.objsize[oid] = len(b) + 1
            self.strval = getattr(self, 'strval', {})
            self.strval[oid] = b
        return self.objaddr(oid)

    def ensure_const(self, ident, sym):
        if ident in self.constsyms or ident in self.constchecked:
            return
        self.constchecked.add(ident)
        t = sym['type']
        v = sym.get('value')
        el = t
        while el['id'] == 'array':
            if nsid(el, '#constant') == '1' or nsid(el, '#constant') == 'true':
                break
            el = subs(el)[0]
        isc = ns(el, '#constant') is not None or ident in self.cfg.get('const_globals', ())
        if not isc or v is None or v.get('id') in ('nil', None):
            return
        self.constsyms.add(ident)
        oid = self.objid(('g', ident), OBJ_C)
        tab = {}
        try:
            self.init_table(tab, t, v, 0)
        except Unsupported:
            pass
        self.consttab[oid] = tab

    def init_table(self, tab, t, v, off):
        if v['id'] == 'string_constant' and t['id'] == 'array':
            b = nsid(v, 'value', '').encode('latin-1', 'replace')
            n = self.p.arraylen(t) or len(b) + 1
            for k in range(n):
                tab[('t:8', off + k)] = BV(b[k] if k < len(b) else 0, 8)
            return
        if t['id'] == 'array':
            el = subs(t)[0]
            sz = self.p.size(el)
            if v['id'] == 'array':
                for k, x in enumerate(subs(v)):
                    self.init_table(tab, el, x, off + k * sz)
                return
            if v['id'] == 'array_of':
                for k in range(self.p.arraylen(t)):
                    self.init_table(tab, el, subs(v)[0], off + k * sz)
                return
            raise Unsupported('array init ' + v['id'])
        if t['id'] in ('struct_tag', 'struct'):
            if v['id'] == 'struct':
                for (n, ct, o), x in zip(self.p.components(t), subs(v)):
                    self.init_table(tab, ct, x, off + o)
                return
            raise Unsupported('struct init')
        if t['id'] in ('union_tag', 'union'):
            if v['id'] == 'union':
                name = nsid(v, 'component_name')
                ct, o = self.p.component(t, name)
                self.init_table(tab, ct, subs(v)[0], off)
                return
            raise Unsupported('union init')
        val = self.eval(v, self.dummyst, self.topframe)
        tab[(self.gkey(t), off)] = val

    # ---------------------------------------------------------------- expressions
    def tobool(self, v):
        if z3.is_bool(v):
            return v
        if is_c(v):
            return TRUE if cval(v) != 0 else FALSE
        return Not(Eq(v, BV(0, v.size())))

    def bool2bv(self, b, w):
        return Ite(b, BV(1, w), BV(0, w))

    def const(self, e):
        t = ety(e)
        v = nsid(e, 'value')
        if t['id'] == 'bool':
            return TRUE if v in ('true', '1') else FALSE
        if t['id'] == 'pointer':
            if v == 'NULL':
                return BV(0, 64)
            return BV(int(v, 16) & M64, 64)
        if t['id'] == 'floatbv':
            return BV(int(v, 16), self.p.width(t))
        w = self.p.width(t)
        return BV(int(v, 16) & ((1 << w) - 1), w)

    def eval(self, e, st, fr):
        i = e['id']
        if i == 'constant':
            return self.const(e)
        if i in ('symbol', 'dereference', 'member', 'index'):
            if i == 'symbol':
                ident = nsid(e, 'identifier')
                if ident in fr.subst and not isinstance(fr.subst[ident], LV):
                    return fr.subst[ident]
            lv = self.lvalue(e, st, fr)
            if lv.ty['id'] == 'array':
                return lv.addr
            return self.load(st, lv)
        s = subs(e)
        t = ety(e)
        if i == 'typecast':
            return self.cast(s[0], t, st, fr)
        if i in ('not',):
            return Not(self.tobool(self.eval(s[0], st, fr)))
        if i == 'and':
            r = TRUE
            vals = [self.tobool(self.eval(x, st, fr)) for x in s]
            return And(*vals)
        if i == 'or':
            return Or(*[self.tobool(self.eval(x, st, fr)) for x in s])
        if i == '=>':
            return Implies(self.tobool(self.eval(s[0], st, fr)), self.tobool(self.eval(s[1], st, fr)))
        if i == 'if':
            c = self.tobool(self.eval(s[0], st, fr))
            if z3.is_true(c):
                return self.eval(s[1], st, fr)
            if z3.is_false(c):
                return self.eval(s[2], st, fr)
            return Ite(c, self.eval(s[1], st, fr), self.eval(s[2], st, fr))
        if i == 'address_of':
            x = s[0]
            if x['id'] == 'symbol' and ety(x) and ety(x)['id'] == 'code':
                return self.objaddr(self.objid(('f', nsid(x, 'identifier')), OBJ_C))
            return self.lvalue(x, st, fr).addr
        if i in ('=', 'notequal'):
            a, b = self.eval(s[0], st, fr), self.eval(s[1], st, fr)
            if a.sort() != b.sort():
                if z3.is_bool(a):
                    a = self.bool2bv(a, b.size())
                elif z3.is_bool(b):
                    b = self.bool2bv(b, a.size())
            if z3.is_bv(a) and a.size() == 64 and (ety(s[0])['id'] == 'pointer'):
                r = self.addr_eq(a, b)
            else:
                r = Eq(a, b)
            return r if i == '=' else Not(r)
        if i in ('<', '<=', '>', '>='):
            a, b = self.eval(s[0], st, fr), self.eval(s[1], st, fr)
            return self.cmp(i, a, b, self.p.signed(ety(s[0])))
        if i in ('+', '-', '*', '/', 'mod', 'bitand', 'bitor', 'bitxor', 'shl', 'ashr', 'lshr'):
            return self.arith(i, e, st, fr)
        if i == 'unary-':
            v = self.eval(s[0], st, fr)
            if is_c(v):
                return BV((-cval(v)) & ((1 << v.size()) - 1), v.size())
            return -v
        if i == 'unary+':
            return self.eval(s[0], st, fr)
        if i == 'bitnot':
            v = self.eval(s[0], st, fr)
            if is_c(v):
                return BV((~cval(v)) & ((1 << v.size()) - 1), v.size())
            return ~v
        if i == 'side_effect':
            return self.sideeffect(e, st, fr)
        if i == 'string_constant':
            return self.strconst(e)
        if i in ('old',):
            return self.evalold(s[0], st, fr)
        if i in ('forall', 'exists'):
            return self.quant(i, e, st, fr)
        if i == 'pointer_offset':
            v = self.eval(s[0], st, fr)
            return z3.SignExt(32, z3.Extract(31, 0, v))
        if i == 'pointer_object':
            v = self.eval(s[0], st, fr)
            return z3.ZeroExt(32, z3.Extract(63, 32, v))
        if i in ('same-object', 'same_object'):
            a, b = self.eval(s[0], st, fr), self.eval(s[1], st, fr)
            return Eq(z3.Extract(63, 32, a), z3.Extract(63, 32, b))
        if i in ('r_ok', 'w_ok', 'rw_ok'):
            return TRUE
        if i == 'nil':
            return TRUE
        if i == 'byte_extract_little_endian':
            lv = self.lvalue(s[0], st, fr)
            off = self.toint64(self.eval(s[1], st, fr), ety(s[1]))
            return self.load(st, LV(t, addr=add64(lv.addr, off)))
        if i == 'popcount':
            v = self.eval(s[0], st, fr)
            r = BV(0, self.p.width(t))
            for k in range(v.size()):
                r = r + z3.ZeroExt(self.p.width(t) - 1, z3.Extract(k, k, v))
            return r
        if i == 'bswap':
            v = self.eval(s[0], st, fr)
            n = v.size() // 8
            if is_c(v):
                return BV(int.from_bytes(cval(v).to_bytes(n, 'little'), 'big'), v.size())
            return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(n)])
        if i in ('xor',):
            return z3.Xor(self.tobool(self.eval(s[0], st, fr)), self.tobool(self.eval(s[1], st, fr)))
        if i == 'infinity' or i.startswith('float') or i.startswith('ieee'):
            return self.fresh('float', self.sort(t))
        raise Unsupported('expr ' + i)

    def cmp(self, i, a, b, signed):
        if z3.is_bool(a):
            a = self.bool2bv(a, 32)
        if z3.is_bool(b):
            b = self.bool2bv(b, 32)
        if is_c(a) and is_c(b):
            x, y = (a.as_signed_long(), b.as_signed_long()) if signed else (cval(a), cval(b))
            return z3.BoolVal({'<': x < y, '<=': x <= y, '>': x > y, '>=': x >= y}[i])
        if signed:
            return {'<': a < b, '<=': a <= b, '>': a > b, '>=': a >= b}[i]
        return {'<': z3.ULT, '<=': z3.ULE, '>': z3.UGT, '>=': z3.UGE}[i](a, b)

    def arith(self, i, e, st, fr):
        s = subs(e)
        t = ety(e)
        vals = [self.eval(x, st, fr) for x in s]
        tys = [ety(x) for x in s]
        if t['id'] == 'floatbv':
            return self.fresh('float', self.sort(t))
        if i in ('+', '-') and any(x['id'] == 'pointer' for x in tys):
            if t['id'] == 'pointer':
                p = None
                off = None
                for v, ty in zip(vals, tys):
                    if ty['id'] == 'pointer' and p is None:
                        p = v
                        pt = ty
                    else:
                        o = self.toint64(v, ty)
                        off = o if off is None else add64(off, o)
                if i == '-':
                    off = BV((-cval(off)) & M64, 64) if is_c(off) else -off
                return self.padd(p, off, subs(pt)[0])
            # difference
            a, b = vals
            el = subs(tys[0])[0]
            sz = 1 if el['id'] in ('empty', 'code') else self.p.size(el)
            ra, rb = self.split(a), self.split(b)
            if (ra[0] is None and rb[0] is None) or (ra[0] is not None and rb[0] is not None and ra[0].eq(rb[0])):
                d = BV((ra[1] - rb[1]) & M64, 64)
            else:
                d = z3.simplify(a - b)
            if sz != 1:
                if is_c(d):
                    x = d.as_signed_long()
                    q = abs(x) // sz
                    d = BV((q if x >= 0 else -q) & M64, 64)
                elif sz & (sz - 1) == 0:
                    d = z3.simplify(d >> BV(sz.bit_length() - 1, 64))
                else:
                    d = d / BV(sz, 64)
            w = self.p.width(t)
            return self.ext(d, w, True)
        w = self.p.width(t)
        if t['id'] == 'bool':
            if i == 'bitxor':
                return z3.Xor(self.tobool(vals[0]), self.tobool(vals[1]))
            if i == 'bitand':
                return And(*[self.tobool(v) for v in vals])
            return Or(*[self.tobool(v) for v in vals])
        vals = [self.bool2bv(v, w) if z3.is_bool(v) else v for v in vals]
        sg = self.p.signed(t)
        r = vals[0]
        for v in vals[1:]:
            if i in ('shl', 'ashr', 'lshr') and v.size() != r.size():
                v = self.ext(v, r.size(), False)
            if v.size() != r.size():
                raise Unsupported('width mismatch in ' + i)
            r = self.arith1(i, r, v, sg)
        return r

    def arith1(self, i, a, b, sg):
        w = a.size()
        M = (1 << w) - 1
        if is_c(a) and is_c(b):
            x, y = cval(a), cval(b)
            sx, sy = a.as_signed_long(), b.as_signed_long()
            if i == '+':
                return BV((x + y) & M, w)
            if i == '-':
                return BV((x - y) & M, w)
            if i == '*':
                return BV((x * y) & M, w)
            if i == 'bitand':
                return BV(x & y, w)
            if i == 'bitor':
                return BV(x | y, w)
            if i == 'bitxor':
                return BV(x ^ y, w)
            if i == 'shl':
                return BV((x << y) & M if y < w else 0, w)
            if i == 'lshr':
                return BV(x >> y if y < w else 0, w)
            if i == 'ashr':
                return BV((sx >> min(y, w - 1)) & M, w)
            if y != 0 and i in ('/', 'mod'):
                if sg:
                    q = abs(sx) // abs(sy)
                    if (sx < 0) != (sy < 0):
                        q = -q
                    return BV((q if i == '/' else sx - q * sy) & M, w)
                return BV(x // y if i == '/' else x % y, w)
        if i == '+':
            if w == 64:
                return add64(a, b)
            if is_c(b):
                a, b = b, a
            if is_c(a):
                if cval(a) == 0:
                    return b
                if b.decl().kind() == z3.Z3_OP_BADD and b.num_args() == 2 and is_c(b.arg(0)):
                    return self.arith1('+', BV((cval(a) + cval(b.arg(0))) & M, w), b.arg(1), sg)
            return a + b
        if i == '-':
            if is_c(b):
                return self.arith1('+', a, BV((-cval(b)) & M, w), sg)
            return a - b
        if i == '*':
            return a * b
        if i == 'bitand':
            for x, y in ((a, b), (b, a)):
                if is_c(x) and cval(x) == 0:
                    return x
                if is_c(x) and cval(x) == M:
                    return y
            return a & b
        if i == 'bitor':
            for x, y in ((a, b), (b, a)):
                if is_c(x) and cval(x) == 0:
                    return y
            return a | b
        if i == 'bitxor':
            return a ^ b
        if i == 'shl':
            return a << b
        if i == 'ashr':
            return a >> b if sg else z3.LShR(a, b)
        if i == 'lshr':
            return z3.LShR(a, b)
        if i == '/':
            if not sg and is_c(b) and cval(b) and cval(b) & (cval(b) - 1) == 0:
                return z3.LShR(a, BV(cval(b).bit_length() - 1, w))
            return a / b if sg else z3.UDiv(a, b)
        if i == 'mod':
            if not sg and is_c(b) and cval(b) and cval(b) & (cval(b) - 1) == 0:
                return a & BV(cval(b) - 1, w)
            return z3.SRem(a, b) if sg else z3.URem(a, b)
        raise Unsupported(i)

    def cast(self, x, t, st, fr):
        xt = ety(x)
        if t['id'] == 'empty':
            self.eval(x, st, fr)
            return BV(0, 8)
        if xt is not None and xt['id'] == 'array':
            return self.lvalue(x, st, fr).addr
        if self.p.is_agg(t):
            raise Unsupported('cast to aggregate')
        v = self.eval(x, st, fr)
        if t['id'] == 'bool':
            return self.tobool(v)
        if t['id'] == 'c_bool':
            return self.bool2bv(self.tobool(v), self.p.width(t))
        if t['id'] == 'floatbv' or (xt['id'] == 'floatbv'):
            if t['id'] == xt['id'] and self.p.width(t) == self.p.width(xt):
                return v
            f = z3.Function('cast_%s%d_%s%d' % (xt['id'], self.p.width(xt), t['id'], self.p.width(t)),
                            self.sort(xt), self.sort(t))
            if z3.is_bool(v):
                v = self.bool2bv(v, self.p.width(xt))
            return f(v)
        w = self.p.width(t)
        if z3.is_bool(v):
            return self.bool2bv(v, w)
        return self.ext(v, w, self.p.signed(xt))

    def evalold(self, x, st, fr):
        if fr.oldst is None:
            raise Unsupported('old without pre-state')
        y = x
        while y['id'] == 'typecast':
            y = subs(y)[0]
        if y['id'] == 'symbol' and fr.oldsubst is not None and nsid(y, 'identifier') in fr.oldsubst:
            f2 = fr.clone()
            f2.subst = fr.oldsubst
            return self.eval(x, fr.oldst, f2)
        # old memory, current parameters
        return self.eval(x, fr.oldst, fr)

    def quant(self, i, e, st, fr):
        vs = subs(subs(e)[0])
        f2 = fr.clone()
        f2.subst = dict(fr.subst)
        consts = []
        for v in vs:
            c = self.fresh('q_' + nsid(v, 'identifier').split('::')[-1], self.sort(ety(v)))
            consts.append(c)
            f2.subst[nsid(v, 'identifier')] = c
            if ety(v)['id'] == 'pointer':
                self.nonlocals[c.get_id()] = c
        names = [c.decl().name() for c in consts]
        self.qvars = self.qvars | set(names)
        b = self.tobool(self.eval(subs(e)[1], st, f2))
        self.qvars = self.qvars - set(names)
        return z3.ForAll(consts, b) if i == 'forall' else z3.Exists(consts, b)

    def sideeffect(self, e, st, fr):
        k = nsid(e, 'statement')
        if k == 'function_call':
            f = subs(e)[0]
            args = subs(e)[1]
            args = subs(args)
            name = nsid(f, 'identifier')
            if name and name.startswith('verif_old_'):
                return self.evalold(args[0], st, fr)
            vals = [self.argval(a, st, fr) for a in args]
            if name in ('htons', 'ntohs'):
                return self.bswap(vals[0], 16)
            if name in ('htonl', 'ntohl'):
                return self.bswap(vals[0], 32)
            return self.speccall(name, vals, args, st, fr)
        if k == 'nondet':
            return self.fresh('nondet', self.sort(ety(e)))
        if k == 'statement_expression':
            raise Unsupported('statement expression')
        if k == 'va_start':
            return self.fresh('va', self.sort(ety(e)))       # some value; what the arguments are is the business of the callee's contract
        raise Unsupported('side effect ' + k)

    def argval(self, a, st, fr):
        t = ety(a)
        if t['id'] == 'array':
            return self.lvalue(a, st, fr).addr
        if self.p.is_agg(t):
            if a['id'] in ('struct', 'union'):
                oid = self.objid(('tmp', fr.path, id(a)), OBJ_L)
                self.assign_agg(st, LV(t, addr=self.objaddr(oid)), a, fr)
                return LV(t, addr=self.objaddr(oid))
            return self.lvalue(a, st, fr)
        return self.eval(a, st, fr)

    def bswap(self, v, w):
        v = self.ext(v, w, False)
        n = w // 8
        if is_c(v):
            return BV(int.from_bytes(cval(v).to_bytes(n, 'little'), 'big'), w)
        return z3.Concat(*[z3.Extract(8 * k + 7, 8 * k, v) for k in range(n)])

    def speccall(self, name, vals, args, st, fr):
        if name == 'verif_raw_eq':
            return Eq(vals[0], vals[1])
        if name.startswith('verif_va_'):
            # variable argument number i of the call the contract is applied to
            va = getattr(self, 'va', [])
            w = 32 if name == 'verif_va_int' else 64
            if name == 'verif_va_count':
                return BV(len(va), 32)
            i = cval(vals[0])
            if i >= len(va) or va[i] is None or isinstance(va[i], LV):
                return BV((1 << w) - 1, w)
            v = va[i]
            if z3.is_bool(v):
                v = self.bool2bv(v, w)
            return v if v.size() == w else self.ext(v, w, True)
        if name.startswith('uf_'):
            f = self.p.symbols[name]['type']
            rt = self.sort(ns(f, 'return_type'))
            u = z3.Function(name, *([v.sort() for v in vals] + [rt]))
            return u(*vals)
        fn = self.p.functions.get(name)
        if fn is None or not fn.has_body:
            raise Unsupported('spec call to bodyless ' + name)
        if name.startswith('rec_'):
            return self.recapp(name, vals, st)
        return self.pure(name, vals, st)

    def pure(self, name, vals, st):
        """evaluate a side-effect free function as a term in state st"""
        sm = self.specmode
        self.specmode = True
        s2 = st.copy()
        s2.pc = TRUE
        s2.abs = ()
        self.specseq += 1
        path = 'S%d' % self.specseq if False else 'S:' + name + str(self.specdepth)
        self.specdepth += 1
        try:
            out = self.run(name, vals, s2, path)
        finally:
            self.specdepth -= 1
            self.specmode = sm
        if out is None:
            raise Unsupported('spec function does not return: ' + name)
        # keep maps that were materialised lazily
        for k, n in s2.mem.items():
            if k not in st.mem:
                st.mem[k] = n if False else self.node(st, k, *self.keysorts[k], rd=False)
        return out[1]

    def project(self, n, fld):
        """identity of the part of map n that accesses to struct member fld can see"""
        memo = self.projmemo
        path = []
        while True:
            r = memo.get((n.nid, fld))
            if r is not None:
                break
            path.append(n)
            if n.kind == 'store':
                f2 = self.fieldof(n.a[1])
                if f2 is not None and f2 != fld:
                    n = n.a[0]
                    continue
            elif n.kind == 'havoc':
                pr = self.probes.get(fld)
                if pr is None:
                    pr = z3.BitVec('probe_' + fld, 64)
                    self.mark_nonlocal(pr)
                    self.tagfield(pr, fld)
                    self.probes[fld] = pr
                if z3.is_false(n.a[1](pr, n.a[4])):
                    n = n.a[0]
                    continue
            elif n.kind == 'ite':
                a, b = self.project(n.a[1], fld), self.project(n.a[2], fld)
                r = a if a == b else n.nid
                break
            r = n.nid
            break
        for q in path:
            memo[(q.nid, fld)] = r
        return r

    def recapp(self, name, vals, st):
        fp = self.footprints.get(name)
        if fp is None:
            # discover the maps it reads
            self.footprints[name] = set()
            old, self.reading = self.reading, set()
            of, self.facts = self.facts, []
            oq, self.qvars = self.qvars, set()
            d = State()
            d.pc, d.env, d.mem, d.ev, d.abs = TRUE, {}, {}, None, ()
            args = [self.fresh('fp', v.sort()) for v in vals]
            self.pure(name, args, d)
            self.footprints[name] = fp = self.reading
            nf = self.facts
            self.reading = old
            self.facts = of
            self.qvars = oq
            nm = set(a.decl().name() for a in args)
            for f in nf:
                if not self._mentions(f, nm):
                    self.facts.append(f)
        if self.reading is not None:
            self.reading |= fp
        parts = []
        for k in sorted(fp):
            if k.startswith('e:'):
                nm = k[2:]
                if nm.startswith('g:'):
                    v = st.env.get(nm)
                    if v is None:
                        v = self.load(st, LV(self.p.symbols[nm[2:]]['type'], env=nm))
                    parts.append((nm, None, v))
                    _keep.append(v)
            elif '\x01' in k:
                k2, fld = k.split('\x01')
                parts.append(('', fld, self.node(st, k2, *self.keysorts[k2], rd=False)))
            else:
                parts.append(('', None, self.node(st, k, *self.keysorts[k], rd=False)))
        app = self.recver(name, vals, parts, 0)
        key = app.get_id()
        if key in self.unfolded or self.recdepth >= self.cfg.get('fuel', 2):
            if key not in self.unfolded:
                self.pending[key] = (app, name, vals, st)
            return app
        if self.qvars and self._mentions(app, self.qvars):
            return app
        self.unfolded[key] = app
        self.recdepth += 1
        q, self.qvars = self.qvars, set()
        body = self.pure(name, vals, st)
        self.qvars = q
        self.recdepth -= 1
        self.fact(app == body)
        return app

    def recver(self, name, vals, parts, depth):
        """the application of recursive function name to vals in the memory version given by parts; where that
        version joins two others, the value is tied to theirs"""
        ids = []
        guard = None
        for i, (nm, fld, x) in enumerate(parts):
            if nm:
                ids.append('%s=%d' % (nm, x.get_id()))
                if guard is None and z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE:
                    guard = x.arg(0)
            else:
                n = x if fld is None else _nodes[self.project(x, fld)]
                parts[i] = (nm, fld, n)
                ids.append('%d' % n.nid)
                if guard is None and n.kind == 'ite':
                    guard = n.a[0]
        f = self.p.symbols[name]['type']
        rt = self.sort(ns(f, 'return_type'))
        uname = '%s{%s}' % (name, ','.join(ids))
        u = z3.Function(uname, *([v.sort() for v in vals] + [rt]))
        app = u(*vals)
        if ns(f, 'return_type')['id'] == 'pointer':
            self.mark_nonlocal(app)
        key = app.get_id()
        if guard is None or key in self.recjoined or depth > 8 or (self.qvars and self._mentions(app, self.qvars)):
            return app
        self.recjoined[key] = app
        for val in (True, False):
            p2 = []
            for nm, fld, x in parts:
                if nm:
                    if z3.is_app(x) and x.decl().kind() == z3.Z3_OP_ITE and x.arg(0).eq(guard):
                        x = x.arg(1 if val else 2)
                        _keep.append(x)
                else:
                    while x.kind == 'ite' and x.a[0].eq(guard):
                        x = x.a[1 if val else 2]
                        if fld is not None:
                            x = _nodes[self.project(x, fld)]
                p2.append((nm, fld, x))
            other = self.recver(name, vals, p2, depth + 1)
            if not other.eq(app):
                self.fact(z3.Implies(guard if val else z3.Not(guard), app == other))
        return app

    # ---------------------------------------------------------------- aggregates
    def copy_agg(self, st, t, dst, src, dkey=None, skey=None, srcst=None):
        """typed copy of an object of type t from address src to dst"""
        srcst = srcst or st
        if t['id'] in ('struct_tag', 'struct'):
            tag = self.p.tagname(t)
            for n, ct, off in self.p.components(t):
                if n.startswith('$pad'):
                    continue
                kk = '%s.%s' % (tag, n)
                o = BV(off, 64)
                if tag is None or kk in self.p.esc_fields:
                    key = None
                elif not self.p.is_agg(ct):
                    key = 'f:' + kk
                elif ct['id'] == 'array' and not self.p.is_agg(subs(ct)[0]):
                    key = 'a:' + kk
                else:
                    key = None
                self.copy_agg(st, ct, add64(dst, o), add64(src, o), key, key, srcst)
            return
        if t['id'] in ('union_tag', 'union'):
            # copy every scalar map present at these bytes
            seen = set()
            for n, ct, off in self.p.components(t):
                self.copy_agg(st, ct, dst, src, None, None, srcst)
            return
        if t['id'] == 'array':
            n = self.p.arraylen(t)
            el = subs(t)[0]
            sz = self.p.size(el)
            if n is None:
                return
            if self.p.is_agg(el) and n > 64:
                raise Unsupported('copy of large struct array')
            if self.p.is_agg(el) or n <= 16:
                for k in range(n):
                    o = BV(k * sz, 64)
                    self.copy_agg(st, el, add64(dst, o), add64(src, o), dkey, skey, srcst)
                return
            self.copy_range(st, dkey or self.gkey(el), skey or self.gkey(el), el, dst, src, BV(n * sz, 64), srcst)
            return
        v = self.load(srcst, LV(t, addr=src, key=skey))
        self.store(st, LV(t, addr=dst, key=dkey), v)

    def copy_range(self, st, dkey, skey, el, dst, src, nbytes, srcst=None):
        srt = self.sort(el)
        ip = el['id'] == 'pointer'
        dn = self.node(st, dkey, srt, ip)
        sn = self.node(srcst or st, skey, srt, ip)
        r = self.root(src)
        if r and r[0] == 'o' and r[1] in self.consttab:
            # materialise the constant
            tab = self.consttab[r[1]]
            n0 = dn
            if not is_c(src) or not is_c(nbytes):
                raise Unsupported('symbolic copy from constant')
            off = cval(src) & 0xffffffff
            sz = self.p.size(el)
            self.note_mod(st, ('mem', dkey, self.modroot(dst)))
            self.frame_range(st, dst, nbytes, dkey)
            for k in range(0, cval(nbytes), sz):
                v = tab.get((self.gkey(el), off + k))
                if v is not None:
                    n0 = Node('store', n0, add64(dst, BV(k, 64)), v)
            st.mem[dkey] = n0
            return
        self.note_mod(st, ('mem', dkey, self.modroot(dst)))
        self.frame_range(st, dst, nbytes, dkey)
        st.mem[dkey] = Node('copy', dn, dst, nbytes, sn, src)

    def modroot(self, a):
        r = self.root(a)
        return '?' if r is None else (r[1] if r[0] == 'o' else '*')

    def frame_range(self, st, dst, nbytes, key, cond=TRUE):
        if self.frame is None or self.specmode:
            return
        r = self.root(dst)
        if r and r[0] == 'o' and r[1] >= OBJ_L:
            return
        if is_c(nbytes) and cval(nbytes) <= 0:
            return
        k = self.fresh('framek', z3.BitVecSort(64))
        c = Implies(And(cond, z3.ULT(k, nbytes)), self.frame_cond(dst + k, key))
        self.oblige(st, 'frame', c, 'range write to %s outside assigns clause' % key)

    def assign_agg(self, st, lv, rhs, fr):
        t = lv.ty
        i = rhs['id']
        if i in ('symbol', 'dereference', 'member', 'index'):
            src = self.lvalue(rhs, st, fr)
            s0 = st.copy()
            self.copy_agg(st, t, lv.addr, src.addr, lv.key, src.key, s0)
            return
        if i == 'typecast':
            return self.assign_agg(st, lv, subs(rhs)[0], fr)
        if i == 'struct':
            tag = self.p.tagname(t)
            comps = self.p.components(t)
            for (n, ct, off), x in zip(comps, subs(rhs)):
                if n.startswith('$pad'):
                    continue
                kk = '%s.%s' % (tag, n)
                l2 = LV(ct, addr=add64(lv.addr, BV(off, 64)))
                if tag is not None and kk not in self.p.esc_fields:
                    if not self.p.is_agg(ct):
                        l2.key = 'f:' + kk
                    elif ct['id'] == 'array' and not self.p.is_agg(subs(ct)[0]):
                        l2.key = 'a:' + kk
                if self.p.is_agg(ct):
                    self.assign_agg(st, l2, x, fr)
                else:
                    self.store(st, l2, self.eval(x, st, fr))
            return
        if i == 'union':
            ct, off = self.p.component(t, nsid(rhs, 'component_name'))
            l2 = LV(ct, addr=lv.addr)
            if self.p.is_agg(ct):
                self.assign_agg(st, l2, subs(rhs)[0], fr)
            else:
                self.store(st, l2, self.eval(subs(rhs)[0], st, fr))
            return
        if i == 'array':
            el = subs(t)[0]
            sz = self.p.size(el)
            for k, x in enumerate(subs(rhs)):
                l2 = LV(el, addr=add64(lv.addr, BV(k * sz, 64)), key=lv.key)
                if self.p.is_agg(el):
                    l2.key = None
                    self.assign_agg(st, l2, x, fr)
                else:
                    self.store(st, l2, self.eval(x, st, fr))
            return
        if i == 'array_of':
            el = subs(t)[0]
            n = self.p.arraylen(t)
            sz = self.p.size(el)
            if self.p.is_agg(el):
                for k in range(n):
                    self.assign_agg(st, LV(el, addr=add64(lv.addr, BV(k * sz, 64))), subs(rhs)[0], fr)
                return
            v = self.eval(subs(rhs)[0], st, fr)
            key = lv.key or self.gkey(el)
            nd = self.node(st, key, self.sort(el), el['id'] == 'pointer')
            self.note_mod(st, ('mem', key, self.modroot(lv.addr)))
            base, ln = lv.addr, BV(n * sz, 64)
            st.mem[key] = Node('fillc', nd, (lambda a, k_, b=base, l=ln: self.inrange(a, b, l)), v, key)
            return
        if i == 'string_constant':
            b = nsid(rhs, 'value', '').encode('latin-1', 'replace')
            n = self.p.arraylen(t) or len(b) + 1
            el = subs(t)[0]
            for k in range(n):
                self.store(st, LV(el, addr=add64(lv.addr, BV(k, 64)), key=lv.key), BV(b[k] if k < len(b) else 0, 8))
            return
        if i == 'side_effect' and nsid(rhs, 'statement') == 'nondet':
            self.havoc_typed(st, t, lv.addr, lv.key, self.tag('nondet'))
            return
        if i == 'if':
            c = self.tobool(self.eval(subs(rhs)[0], st, fr))
            a = self.lvalue(subs(rhs)[1], st, fr)
            b = self.lvalue(subs(rhs)[2], st, fr)
            s0 = st.copy()
            self.copy_agg(st, t, lv.addr, Ite(c, a.addr, b.addr), lv.key, None, s0)
            return
        raise Unsupported('aggregate assignment from ' + i)

    def tag(self, s):
        self.ntag += 1
        return '%s%d' % (s, self.ntag)

    def havoc_typed(self, st, t, addr, key, tag, check=True):
        """havoc the object of type t at addr, map by map"""
        if t['id'] in ('struct_tag', 'struct'):
            tagn = self.p.tagname(t)
            for n, ct, off in self.p.components(t):
                if n.startswith('$pad'):
                    continue
                kk = '%s.%s' % (tagn, n)
                k2 = None
                if tagn is not None and kk not in self.p.esc_fields:
                    if not self.p.is_agg(ct):
                        k2 = 'f:' + kk
                    elif ct['id'] == 'array' and not self.p.is_agg(subs(ct)[0]):
                        k2 = 'a:' + kk
                self.havoc_typed(st, ct, add64(addr, BV(off, 64)), k2, tag, check)
            return
        if t['id'] in ('union_tag', 'union'):
            for n, ct, off in self.p.components(t):
                self.havoc_typed(st, ct, addr, None, tag, check)
            return
        if t['id'] == 'array':
            n = self.p.arraylen(t)
            el = subs(t)[0]
            if self.p.is_agg(el):
                for k in range(n or 0):
                    self.havoc_typed(st, el, add64(addr, BV(k * self.p.size(el), 64)), None, tag, check)
                return
            k2 = key or self.gkey(el)
            nd = self.node(st, k2, self.sort(el), el['id'] == 'pointer')
            self.note_mod(st, ('mem', k2, self.modroot(addr)))
            if n is None or n == 1:
                cond = (lambda a, k_: Eq(z3.Extract(63, 32, a), z3.Extract(63, 32, addr)))
                ln = None
            else:
                ln = BV(n * self.p.size(el), 64)
                cond = (lambda a, k_: self.inrange(a, addr, ln))
            if check and ln is not None:
                self.frame_range(st, addr, ln, k2)
            st.mem[k2] = self.havoc_node(nd, k2, cond, tag)
            return
        v = self.fresh('hv', self.sort(t))
        if t['id'] == 'pointer':
            self.mark_nonlocal(v)
        self.store(st, LV(t, addr=addr, key=key), v, check)

    # ---------------------------------------------------------------- obligations
    def oblige(self, st, kind, cond, text, ins=None):
        if self.specmode:
            return
        ins = ins or self.cur
        o = Obligation()
        o.kind = kind
        o.func = self.target
        o.line = ins.line if ins else '?'
        o.file = ins.file if ins else '?'
        o.name = '%s.%s.%d' % (self.target, kind, len(self.obs) + 1)
        o.guard = st.pc
        o.cond = cond
        o.nfacts = len(self.facts)
        o.result = None
        o.time = 0
        o.solver = ''
        o.info = text
        o.model = None
        self.obs.append(o)

    # ---------------------------------------------------------------- running functions
    def run(self, name, vals, st, path):
        """inline execution; returns (state, retval) or None if it never returns"""
        fn = self.p.functions[name]
        fn.analyse()
        if path.count('>') > 60:
            raise Unsupported('inline depth')
        fr = Frame(path, name)
        ftype = self.p.symbols[name]['type']
        params = fn.params
        for k, pid in enumerate(params):
            if pid == '':
                continue
            pt = self.p.symbols[pid]['type']
            lv = self.symlv(pid, pt, st, fr)
            if k >= len(vals) or (path, pid) in self.prestored:
                continue
            v = vals[k]
            if isinstance(v, LV):
                self.copy_agg(st, pt, lv.addr, v.addr, None, None, st.copy())
                continue
            if v is not None:
                if z3.is_bool(v) and pt['id'] != 'bool':
                    v = self.bool2bv(v, self.p.width(pt))
                elif z3.is_bv(v) and pt['id'] != 'bool' and v.size() != self.p.width(pt):
                    v = self.ext(v, self.p.width(pt), True)
                elif z3.is_bv(v) and pt['id'] == 'bool':
                    v = self.tobool(v)
                self.store(st, lv, v)
        rt = ns(ftype, 'return_type')
        fr.retkey = path + '|#ret'
        fr.rett = rt
        fr.entry = st.copy() if not self.specmode else None
        work = {}
        heap = []
        exits = []

        def push(i, iters, s):
            key = (i, iters)
            if key in work:
                work[key].append(s)
                return
            work[key] = [s]
            heapq.heappush(heap, (self.prio(fn, i, dict(iters)), i, iters))

        push(0, tuple(sorted((l.ident, 0) for l in fn.nest(0))), st)
        while heap:
            pr, i, iters = heapq.heappop(heap)
            sts = work.pop((i, iters))
            s = self.merge(sts)
            if z3.is_false(s.pc):
                continue
            ins = fn.instrs[i]
            if not self.specmode:
                self.cur = ins
            if ins.op == 'END_FUNCTION':
                exits.append(s)
                continue
            loops = fn.nest(i)
            # un-annotated loop treated by havoc: the cut is at the head
            hk = None
            for lp in loops:
                if lp.head == i:
                    hk = lp
            if hk is not None:
                lctx = path + '#' + fn.name + '#%d' % hk.ident
                lkey = fn.name + '#%d' % hk.ident
                mode = self.loopmode.get(lkey, 'auto')
                if self.has_marker(fn, hk) and not self.specmode:
                    mi = fn.instrs[hk.marker]
                    if not self.atcut(s, fr, lctx, nsid(subs(mi.code)[1], 'identifier'), subs(subs(mi.code)[2]), mi):
                        continue
                elif mode == 'havoc':
                    if lctx in s.abs:
                        self.ptr_check(lctx, s)
                        continue      # back edge, invariant is True
                    self.cut(s, fr, lctx, None, ins)
            succ = self.step(fn, ins, s, fr)
            for (j, s2) in succ:
                self.edge(fn, i, j, dict(iters), s2, push, path)
        if not exits:
            return None
        out = self.merge(exits)
        ret = None
        if rt['id'] != 'empty':
            if self.p.is_agg(rt):
                ret = LV(rt, addr=self.objaddr(self.objid(('l', path, '#ret'), OBJ_L)))
            else:
                ret = out.env.get(fr.retkey)
                if ret is None:
                    ret = self.fresh('noret', self.sort(rt))
        # drop the callee's locals
        pre = path + '|'
        for k in [k for k in out.env if k.startswith(pre)]:
            del out.env[k]
        return out, ret

    def has_marker(self, fn, lp):
        if lp.marker is None:
            lp.marker = -1
            inner = set()
            for l2 in lp.inner:
                inner |= l2.body
            for i in lp.body:
                if i in inner:
                    continue
                ins = fn.instrs[i]
                if ins.op == 'FUNCTION_CALL':
                    n = nsid(subs(ins.code)[1], 'identifier')
                    if n and n.startswith('verif_inv_') and n in self.p.contracts:
                        lp.marker = i
        return lp.marker >= 0

    def prio(self, fn, i, iters):
        r = []
        for lp in fn.nest(i):
            r.append(lp.topo)
            r.append(iters.get(lp.ident, 0))
        r.append(fn.topo[i])
        return tuple(r)

    def edge(self, fn, i, j, iters, s, push, path):
        if z3.is_false(s.pc):
            return
        src = fn.nest(i)
        dst = fn.nest(j)
        dids = set(l.ident for l in dst)
        sids = set(l.ident for l in src)
        for lp in src:
            if lp.ident not in dids:
                iters.pop(lp.ident, None)
                lc = path + '#' + fn.name + '#%d' % lp.ident
                if lc in s.abs:
                    s.abs = tuple(x for x in s.abs if x != lc)
        for lp in dst:
            if lp.ident not in sids:
                iters[lp.ident] = 0
            elif lp.head == j:
                # back edge
                lc = path + '#' + fn.name + '#%d' % lp.ident
                iters[lp.ident] += 1
                lkey = fn.name + '#%d' % lp.ident
                if lc not in s.abs:
                    lim = self.unroll_limit(fn, lp)
                    if iters[lp.ident] > lim:
                        if self.has_marker(fn, lp):
                            raise Unsupported('loop in %s avoids its invariant marker' % fn.name)
                        if self.cfg.get('bounded') and not self.specmode:
                            self.bounded_loops[lkey] = lim
                            return     # bounded mode: stop exploring here
                        if self.specmode:
                            raise Unsupported('unbounded loop in spec function ' + fn.name)
                        self.loopmode[lkey] = 'havoc'
                        raise Restart()
                # reset inner loops
                for l2 in lp.inner:
                    iters.pop(l2.ident, None)
                if lc in s.abs:
                    iters[lp.ident] = min(iters[lp.ident], 2)
        push(j, tuple(sorted(iters.items())), s)

    def unroll_limit(self, fn, lp):
        u = self.cfg.get('unroll', {})
        if isinstance(u, int):
            return u
        return u.get(fn.name, u.get('*', 40))

    def merge(self, sts):
        if len(sts) == 1:
            return sts[0]
        sts = [s for s in sts if not z3.is_false(s.pc)] or sts[:1]
        r = sts[0]
        for b in sts[1:]:
            r = self.merge2(r, b)
        return r

    def merge2(self, a, b):
        g = b.pc
        # choose the simpler guard for selection
        out = State()
        out.abs = a.abs
        if a.abs != b.abs:
            out.abs = tuple(x for x in a.abs if x in b.abs)
        out.pc = self.or_guard(a.pc, b.pc)
        sel = self.selguard(a.pc, b.pc)
        env = {}
        for k in set(a.env) | set(b.env):
            x, y = a.env.get(k), b.env.get(k)
            if x is y or (x is not None and y is not None and x.eq(y)):
                env[k] = x
                continue
            if k.startswith('g:'):
                t = self.p.symbols[k[2:]]['type']
                if x is None:
                    x = self.fresh_env(a, k, t)
                if y is None:
                    y = self.fresh_env(b, k, t)
                env[k] = Ite(sel, y, x)
                continue
            if x is None or y is None:
                env[k] = x if y is None else y     # dead or undefined on one side
                continue
            env[k] = Ite(sel, y, x)
        mem = {}
        for k in set(a.mem) | set(b.mem):
            ks = self.keysorts[k]
            x = a.mem.get(k)
            y = b.mem.get(k)
            if x is None:
                x = self.node(a, k, *ks, rd=False)
            if y is None:
                y = self.node(b, k, *ks, rd=False)
            mem[k] = x if x is y else Node('ite', sel, y, x)
        if a.ev is b.ev:
            out.ev = a.ev
        else:
            out.ev = ('ite', b.ev, sel, {}, '', a.ev)
        out.env = env
        out.mem = mem
        return out

    def conj(self, t):
        if z3.is_and(t):
            return list(t.children())
        return [t]

    def selguard(self, ga, gb):
        """a condition that is true on b-paths and false on a-paths"""
        ca = {x.get_id(): x for x in self.conj(ga)}
        cb = {x.get_id(): x for x in self.conj(gb)}
        da = [x for k, x in ca.items() if k not in cb]
        db = [x for k, x in cb.items() if k not in ca]
        if len(db) == 1 and len(da) == 1:
            return db[0]
        return And(*db) if db else gb

    def or_guard(self, ga, gb):
        ca = self.conj(ga)
        cb = self.conj(gb)
        ib = set(x.get_id() for x in cb)
        ia = set(x.get_id() for x in ca)
        common = [x for x in ca if x.get_id() in ib]
        da = [x for x in ca if x.get_id() not in ib]
        db = [x for x in cb if x.get_id() not in ia]
        if not da or not db:
            return And(*common)
        if len(da) == 1 and len(db) == 1 and (Not(da[0]).eq(db[0]) or Not(db[0]).eq(da[0])):
            return And(*common)
        d = Or(And(*da), And(*db))
        return And(*(common + [d]))

    def guard_and(self, pc, c):
        if z3.is_true(c):
            return pc
        if z3.is_false(c):
            return FALSE
        cs = self.conj(pc)
        nc = Not(c)
        for x in cs:
            if x.eq(c):
                return pc
            if x.eq(nc):
                return FALSE
        add = self.conj(c)
        if z3.is_true(pc):
            return c
        return z3.And(*(cs + add))

    # ---------------------------------------------------------------- loop cut
    def cut(self, s, fr, lctx, inv, ins):
        """havoc the loop's modified set; inv: (name, argexprs) or None"""
        s.abs = s.abs + (lctx,)
        if inv is None:
            self.havoc_loops.add(lctx)
        else:
            self.inv_loops.add(inv[0][len('verif_inv_'):] if inv[0].startswith('verif_inv_') else inv[0])
        mods = self.loopmods.setdefault(lctx, {})
        tag = self.tag('loop')
        for m in list(mods.values()):
            if m[0] == 'env':
                name, t = m[1], m[2]
                self.note_mod(s, m)
                v = self.fresh('lp_' + name.split('|')[-1], self.sort(t))
                if t['id'] == 'pointer' and name in s.env:
                    v = self.ptr_havoc(lctx, name, s.env[name], v)
                s.env[name] = v
            elif m[0] == 'mem':
                key = m[1]
                if key not in self.keysorts or self.keysorts[key] is None:
                    continue
                self.note_mod(s, m)
                n = self.node(s, key, *self.keysorts[key])
                fm = self.frame_mask(key)
                if fm is not None:
                    s.mem[key] = self.bits_node(n, key, TRUE, fm, tag + 'b')
                    continue
                s.mem[key] = self.havoc_node(n, key, self.modcond(m[2], m[3] if len(m) > 3 else None), tag + 'o%s%s' % (m[2], m[3] if len(m) > 3 and m[3] else ''))
            elif m[0] == 'rng':
                self.note_mod(s, m)
                self.event(s, 'havoc', self.modcond(m[1]), tag + 'r%s' % m[1])
            elif m[0] == 'event':
                self.event(s, 'havoc', (lambda a, k_: TRUE), 'all' + tag)
                self.drop_globals(s)

    def modcond(self, r, fld=None):
        if fld is not None:
            g = self.modcond(r)

            def cond(a, k_):
                fa = self.fieldof(a)
                return FALSE if fa is not None and fa != fld else g(a, k_)
            return cond
        if r == '?':
            return (lambda a, k_: TRUE)
        if r == '~':
            return (lambda a, k_: self.not_local_scalar(a))
        if r == '*':
            return self.frame_havoc_cond
        return (lambda a, k_: self.inobj(a, r))

    def not_local_scalar(self, a):
        r = self.root(a)
        return FALSE if r and r[0] == 'o' and r[1] in self.scalarlocal else TRUE

    def frame_havoc_cond(self, a, key):
        r = self.root(a)
        if r and r[0] == 'o' and r[1] >= OBJ_L:
            return FALSE          # local objects are listed separately
        c = self.frame_cond(a, key, over=True)
        return c

    def inobj(self, a, oid):
        r = self.root(a)
        if r:
            if r[0] == 'o':
                return TRUE if r[1] == oid else FALSE
            if oid >= OBJ_L or oid in self.staticlocal and self.cfg.get('static_private'):
                return FALSE
        return Eq(z3.Extract(63, 32, a), BV(oid, 32))

    def ptr_havoc(self, lctx, name, old, v):
        """automatic invariant: a loop-modified pointer stays in the object it
        pointed into, or stays a non-local pointer; checked at the back edge"""
        mode = self.ptrmode.get((lctx, name))
        if mode == 'any':
            return v
        r = self.root(old)
        if r is None:
            if is_c(old) and cval(old) == 0:
                r = ('n', 0)
            else:
                return v
        if r[0] == 'n':
            self.ptrchk[(lctx, name)] = 'n'
            self.mark_nonlocal(v)
            return v
        self.ptrchk[(lctx, name)] = r[1]
        o = self.fresh('off', z3.BitVecSort(32))
        v = z3.Concat(BV(r[1], 32), o)
        self.rootcache[v.get_id()] = (v, ('o', r[1]))
        return v

    def ptr_check(self, lctx, s):
        for (l, name), want in list(self.ptrchk.items()):
            if l != lctx or self.ptrmode.get((l, name)) == 'any':
                continue
            v = s.env.get(name)
            if v is None:
                continue
            r = self.root(v)
            if r is None and is_c(v) and cval(v) == 0 and want == 'n':
                continue
            if r is None or (want == 'n' and r[0] != 'n') or (want != 'n' and r != ('o', want)):
                self.ptrmode[(l, name)] = 'any'
                self.dirty = True

    def inv_eval(self, s, fr, name, argx):
        ct = self.p.contracts.get(name)
        if ct is None:
            raise Unsupported('no contract for invariant ' + name)
        vals = [self.argval(a, s, fr) for a in argx]
        ps = [nsid(p, '#identifier') for p in subs(ns(ct, 'parameters'))]
        f2 = Frame(fr.path, fr.func)
        f2.retkey = fr.retkey
        oldst = fr.entry
        oldsub = {}
        sub = {}
        for lam in subs(ns(ct, '#spec_ensures') or {'sub': []}):
            tup = subs(subs(lam)[0])
            ids = [nsid(x, 'identifier') for x in tup]
            if ids and ids[0] == '__CPROVER_return_value':
                ids = ids[1:]
            tys = [ety(x) for x in tup][-len(ids):] if ids else []
            for k, pid in enumerate(ids):
                v = vals[k]
                if not isinstance(v, LV):
                    v = self.coerce(v, tys[k], ety(argx[k]))
                sub[pid] = v
                try:
                    ov = self.argval(argx[k], fr.entry, fr)
                    if not isinstance(ov, LV):
                        ov = self.coerce(ov, tys[k], ety(argx[k]))
                    oldsub[pid] = ov
                except Unsupported:
                    pass
        f2.subst = sub
        f2.oldst = oldst
        f2.oldsubst = oldsub
        res = []
        for lam in subs(ns(ct, '#spec_ensures') or {'sub': []}):
            res.append(self.tobool(self.eval(subs(lam)[1], s, f2)))
        return res

    def coerce(self, v, t, st):
        if t['id'] == 'bool':
            return self.tobool(v)
        if z3.is_bool(v):
            return self.bool2bv(v, self.p.width(t))
        w = self.p.width(t)
        if v.size() != w:
            return self.ext(v, w, self.p.signed(st) if st and st['id'] != 'array' else False)
        return v

    # ---------------------------------------------------------------- one instruction
    def step(self, fn, ins, s, fr):
        op = ins.op
        nxt = ins.idx + 1
        if op in ('SKIP', 'LOCATION', 'DEAD', 'OTHER', 'ATOMIC_BEGIN', 'ATOMIC_END'):
            if op == 'OTHER' and ins.code is not None and nsid(ins.code, 'statement') == 'expression':
                try:
                    x = subs(ins.code)[0]
                    if x['id'] not in ('symbol', 'constant'):
                        self.eval(x, s, fr)
                except Unsupported:
                    pass
            return [(nxt, s)]
        if op == 'DECL':
            ident = nsid(subs(ins.code)[0], 'identifier')
            k = fr.path + '|' + ident
            s.env.pop(k, None)
            return [(nxt, s)]
        if op == 'ASSIGN':
            l, r = subs(ins.code)
            lt = ety(l)
            if self.p.is_agg(lt):
                lv = self.lvalue(l, s, fr)
                self.assign_agg(s, lv, r, fr)
                return [(nxt, s)]
            v = self.eval(r, s, fr)
            lv = self.lvalue(l, s, fr)
            if lv.ty['id'] == 'c_bit_field' and z3.is_bv(v) and v.size() != self.p.width(lv.ty):
                v = self.ext(v, self.p.width(lv.ty), False)
            if z3.is_bool(v) and lv.ty['id'] != 'bool':
                v = self.bool2bv(v, self.p.width(lv.ty))
            self.store(s, lv, v)
            return [(nxt, s)]
        if op == 'SET_RETURN_VALUE':
            x = subs(ins.code)[0]
            if self.p.is_agg(fr.rett):
                oid = self.objid(('l', fr.path, '#ret'), OBJ_L)
                self.assign_agg(s, LV(fr.rett, addr=self.objaddr(oid)), x, fr)
                return [(nxt, s)]
            if fr.rett['id'] == 'empty':
                return [(nxt, s)]
            v = self.eval(x, s, fr)
            s.env[fr.retkey] = v
            self.note_mod(s, ('env', fr.retkey, fr.rett))
            return [(nxt, s)]
        if op == 'GOTO':
            c = TRUE if ins.guard is None else self.tobool(self.eval(ins.guard, s, fr))
            if z3.is_true(c):
                return [(ins.targets[0], s)]
            if z3.is_false(c):
                return [(nxt, s)]
            c = self.simp(c)
            if z3.is_true(c):
                return [(ins.targets[0], s)]
            if z3.is_false(c):
                return [(nxt, s)]
            s1 = s
            s2 = s.copy()
            pc = s.pc
            s1.pc = self.guard_and(pc, c)
            s2.pc = self.guard_and(pc, Not(c))
            return [(ins.targets[0], s1), (nxt, s2)]
        if op == 'FUNCTION_CALL':
            return self.call(fn, ins, s, fr)
        if op == 'ASSUME':
            c = self.tobool(self.eval(ins.guard, s, fr))
            s.pc = self.guard_and(s.pc, c)
            return [(nxt, s)]
        if op == 'ASSERT':
            c = self.tobool(self.eval(ins.guard, s, fr))
            self.oblige(s, 'assert', c, 'assertion', ins)
            return [(nxt, s)]
        raise Unsupported('instruction ' + op)

    def simp(self, c):
        n = self.dagsize(c, 300)
        if n <= 300:
            c = z3.simplify(c)
        return c

    def dagsize(self, t, lim):
        seen = set()
        st = [t]
        big = self.bigterms
        while st and len(seen) <= lim:
            x = st.pop()
            k = x.get_id()
            if k in seen:
                continue
            if (k, lim) in big:
                return lim + 1
            seen.add(k)
            st.extend(x.children())
        if len(seen) > lim:
            big[(t.get_id(), lim)] = t      # (kept alive, so that its number stays its own)
        return len(seen)

    # ---------------------------------------------------------------- calls
    def call(self, fn, ins, s, fr):
        nxt = ins.idx + 1
        lhs, f, args = subs(ins.code)
        args = subs(args)
        if f['id'] == 'dereference' or f['id'] != 'symbol':
            tgt = self.cfg.get('fptr', {}).get(fr.func)
            if tgt is None:
                # a call through a pointer: constant function?
                name = None
                try:
                    a = self.eval(subs(f)[0], s, fr)
                    if is_c(a):
                        for k, o in self.objids.items():
                            if k[0] == 'f' and (o << 32) == cval(a):
                                name = k[1]
                except Unsupported:
                    pass
                if name is None:
                    name = '*' + self.fpname(f)
            elif tgt.startswith('&'):
                # the called address comes first among the arguments of the contract
                name = tgt[1:]
                args = [subs(f)[0]] + list(args)
            else:
                name = tgt
        else:
            name = nsid(f, 'identifier')
        if name.startswith('verif_inv_'):
            return [(nxt, s)]
        if name.startswith('verif_') and not name.startswith('verif_at_'):
            return self.verif_builtin(ins, s, fr, name, lhs, args)
        h = getattr(self, 'b_' + name, None)
        if h is None and name.startswith('__builtin_'):
            h = getattr(self, 'b_' + name[len('__builtin_'):], None)
        if name in self.p.contracts and not self.specmode and not (name in self.cfg.get('inline', ())):
            vals = [self.argval(a, s, fr) for a in args]
            out = self.apply_contract(name, vals, args, s, fr, ins)
            if out is None:
                return []
            s, ret = out
        elif h is not None:
            self.used_builtins.add(name)
            vals = [self.argval(a, s, fr) for a in args]
            r = h(s, fr, vals, args, ins, lhs)
            if r is None:
                return []
            s, ret = r
        else:
            fn2 = self.p.functions.get(name)
            if self.specmode and name.startswith('rec_'):
                vals = [self.argval(a, s, fr) for a in args]
                ret = self.recapp(name, vals, s)
            elif self.specmode and (name.startswith('uf_') or name == 'verif_raw_eq'):
                vals = [self.argval(a, s, fr) for a in args]
                ret = self.speccall(name, vals, args, s, fr)
            elif fn2 is not None and fn2.has_body and name not in self.cfg.get('extern', ()) \
                    and ('>' + name + ':') not in fr.path:
                vals = [self.argval(a, s, fr) for a in args]
                if not self.specmode:
                    self.inlined.add(name)
                its = ''
                r = self.run(name, vals, s, fr.path + '>' + name + ':%d' % ins.idx)
                if not self.specmode:
                    self.cur = ins
                if r is None:
                    return []
                s, ret = r
            else:
                s, ret = self.unknown(name, s, fr, args, ins, lhs)
        if lhs['id'] != 'nil' and ret is not None:
            lv = self.lvalue(lhs, s, fr)
            if isinstance(ret, LV):
                self.copy_agg(s, lv.ty, lv.addr, ret.addr, lv.key, None, s.copy())
            else:
                if z3.is_bool(ret) and lv.ty['id'] != 'bool':
                    ret = self.bool2bv(ret, self.p.width(lv.ty))
                elif z3.is_bv(ret) and lv.ty['id'] == 'bool':
                    ret = self.tobool(ret)
                elif z3.is_bv(ret) and ret.size() != self.p.width(lv.ty):
                    ret = self.ext(ret, self.p.width(lv.ty), True)
                self.store(s, lv, ret)
        return [(nxt, s)]

    def fpname(self, f):
        x = subs(f)[0] if subs(f) else f
        if x['id'] == 'member':
            return nsid(x, 'component_name')
        return 'fptr'

    def rettype(self, name, lhs):
        if lhs['id'] != 'nil':
            return ety(lhs)
        return None

    def unknown(self, name, s, fr, args, ins, lhs):
        vals = []
        for a in args:
            try:
                vals.append(self.argval(a, s, fr))
            except Unsupported:
                vals.append(None)
        if self.specmode:
            raise Unsupported('spec calls unknown ' + name)
        if name in self.noeffect or any(name.startswith(x) for x in self.cfg.get('noeffect_prefix', ())):
            self.used_noeffect.add(name)
        else:
            self.used_havoc.add(name)
            self.havoc_all(s, 'all_' + self.tag('x'))
        t = self.rettype(name, lhs)
        if t is None or t['id'] == 'empty':
            return s, None
        if self.p.is_agg(t):
            oid = self.objid(('l', fr.path, 'ret', ins.idx), OBJ_L)
            self.havoc_typed(s, t, self.objaddr(oid), None, self.tag('r'))
            return s, LV(t, addr=self.objaddr(oid))
        v = self.fresh('ret_' + name, self.sort(t))
        if t['id'] == 'pointer':
            self.mark_nonlocal(v)
        return s, v

    def havoc_all(self, s, tag):
        if self.frame is not None and not self.specmode:
            c = Or(*[f[1] for f in self.frame if f[0] == 'all'])
            if not z3.is_true(c):
                self.oblige(s, 'frame', c, 'call with unknown effects')
        for l in s.abs:
            md = self.loopmods.setdefault(l, {})
            if ('event',) not in md:
                md[('event',)] = ('event', None)
                self.dirty = True
        self.event(s, 'havoc', (lambda a, k_: TRUE), tag)
        self.drop_globals(s)

    def isghost(self, k):
        return k.startswith('g:ghost_') or k[2:] in self.cfg.get('stable_globals', ())

    def drop_globals(self, s):
        for k in list(s.env):
            if k.startswith('g:') and not self.isghost(k):
                del s.env[k]

    def notprivate(self, a):
        return TRUE

    # ---- invariants at markers
    def atcut(self, s, fr, lctx, name, args, ins):
        if name not in self.p.contracts:
            raise Unsupported('no contract for invariant ' + name)
        kind = 'inv-preserved' if lctx in s.abs else 'inv-entry'
        for k, c in enumerate(self.inv_eval(s, fr, name, args)):
            self.oblige(s, kind, c, '%s clause %d' % (name, k + 1), ins)
        if lctx in s.abs:
            self.ptr_check(lctx, s)
            return False
        self.cut(s, fr, lctx, (name, args), ins)
        for c in self.inv_eval(s, fr, name, args):
            self.fact(Implies(s.pc, c))
        return True

    def verif_builtin(self, ins, s, fr, name, lhs, args):
        nxt = ins.idx + 1
        if name == 'verif_assert':
            c = self.tobool(self.eval(args[0], s, fr))
            self.oblige(s, 'lemma', c, 'verif_assert', ins)
            self.fact(Implies(s.pc, c))
            return [(nxt, s)]
        if name == 'verif_assume':
            c = self.tobool(self.eval(args[0], s, fr))
            s.pc = self.guard_and(s.pc, c)
            self.assume_used.add('%s:%s' % (fr.func, ins.line))
            return [(nxt, s)]
        if name == 'verif_unfold':
            self.eval(args[0], s, fr)
            return [(nxt, s)]
        if name.startswith('verif_nondet'):
            t = ety(lhs)
            v = self.fresh('nd', self.sort(t))
            if t['id'] == 'pointer':
                self.mark_nonlocal(v)
            self.store(s, self.lvalue(lhs, s, fr), v)
            return [(nxt, s)]
        raise Unsupported(name)

    # ---- contract application at call sites
    def contract_parts(self, name, which):
        ct = self.p.contracts[name]
        x = ns(ct, which)
        return subs(x) if x else []

    def bind(self, name, lam, vals, argx, ret):
        tup = subs(subs(lam)[0])
        ids = [nsid(x, 'identifier') for x in tup]
        tys = [ety(x) for x in tup]
        sub = {}
        k = 0
        for pid, t in zip(ids, tys):
            if pid == '__CPROVER_return_value':
                if ret is not None:
                    sub[pid] = ret
                continue
            if k < len(vals):
                v = vals[k]
                if v is not None and not isinstance(v, LV):
                    v = self.coerce(v, t, ety(argx[k]) if argx else None)
                sub[pid] = v
            k += 1
        return sub

    def apply_contract(self, name, vals, argx, s, fr, ins):
        self.used_contracts.add(name)
        pre = s.copy()
        f2 = Frame(fr.path + '>' + name, name)
        npar = len(subs(ns(self.p.contracts[name], 'parameters') or {}))
        self.va = vals[npar:]
        for k, lam in enumerate(self.contract_parts(name, '#spec_requires')):
            f2.subst = self.bind(name, lam, vals, argx, None)
            c = self.tobool(self.eval(subs(lam)[1], s, f2))
            self.oblige(s, 'requires', c, 'precondition %d of %s' % (k + 1, name), ins)
            self.fact(Implies(s.pc, c))
        # a pointer the callee stores can only be local if it was handed a local one
        self.localargs = False
        for v, a in zip(vals, argx):
            if not isinstance(v, LV) and v is not None and ety(a)['id'] in ('pointer', 'array'):
                r = self.root(v)
                if not ((r and (r[0] == 'n' or r[1] < OBJ_L)) or (is_c(v) and cval(v) == 0)):
                    self.localargs = True
        for lam in self.contract_parts(name, '#spec_assigns'):
            f2.subst = self.bind(name, lam, vals, argx, None)
            self.havoc_target(s, subs(lam)[1], f2, pre, TRUE)
        ct = self.p.contracts[name]
        rt = ns(ct, 'return_type')
        ret = None
        if rt['id'] != 'empty':
            if self.p.is_agg(rt):
                oid = self.objid(('l', fr.path, 'ret', ins.idx), OBJ_L)
                self.havoc_typed(s, rt, self.objaddr(oid), None, self.tag('r'))
                ret = LV(rt, addr=self.objaddr(oid))
            else:
                ret = self.fresh('ret_' + name, self.sort(rt))
                if rt['id'] == 'pointer' and not self.localargs:
                    self.mark_nonlocal(ret)
        f2.oldst = pre
        for lam in self.contract_parts(name, '#spec_ensures'):
            f2.subst = self.bind(name, lam, vals, argx, ret)
            f2.oldsubst = None
            c = self.tobool(self.eval(subs(lam)[1], s, f2))
            # a contract that ensures false never returns
            if z3.is_false(c):
                return None
            self.fact(Implies(s.pc, c))
        return s, ret

    def targets(self, e, st, fr, cond):
        """-> list of frame entries"""
        i = e['id']
        if i == 'conditional_target_group':
            c = self.tobool(self.eval(subs(e)[0], st, fr))
            r = []
            for x in subs(subs(e)[1]):
                r += self.targets(x, st, fr, And(cond, c))
            return r
        if i == 'expression_list':
            r = []
            for x in subs(e):
                r += self.targets(x, st, fr, cond)
            return r
        if i == 'side_effect':
            f = nsid(subs(e)[0], 'identifier')
            args = subs(subs(e)[1])
            if f == '__CPROVER_object_whole':
                return [('obj', self.eval(args[0], st, fr), cond)]
            if f in ('__CPROVER_object_upto',):
                a = self.eval(args[0], st, fr)
                n = self.toint64(self.eval(args[1], st, fr), ety(args[1]))
                return [('range', a, None, cond, n)]
            if f == 'verif_text_upto':
                # n characters from p on, written as characters
                a = self.eval(args[0], st, fr)
                x = args[0]
                while x['id'] == 'typecast':
                    x = subs(x)[0]
                el = subs(ety(x))[0]
                n = self.toint64(self.eval(args[1], st, fr), ety(args[1]))
                return [('range', a, self.gkey(el), cond, n, {'id': 'array', 'sub': [el]})]
            if f == '__CPROVER_object_from':
                a = self.eval(args[0], st, fr)
                return [('range', a, None, cond, BV(1 << 31, 64))]
            if f == 'verif_everything':
                return [('all', cond)]
            if f in ('verif_any_field', 'verif_any_bits'):
                # the named field, of every object
                x = args[0]
                while x['id'] == 'typecast':
                    x = subs(x)[0]
                lv = self.lvalue(x, st, fr)
                if lv.env is not None:
                    raise Unsupported('verif_any_field of %s' % lv.key)
                if not (lv.key or '').startswith('f:'):
                    # a field whose address is taken somewhere: every object of that type
                    if f == 'verif_any_bits' or self.p.is_agg(lv.ty):
                        raise Unsupported('verif_any_field of %s' % lv.key)
                    lv.key = self.gkey(lv.ty)
                m = None
                if f == 'verif_any_bits':
                    m = self.eval(args[1], st, fr)
                    if not is_c(m):
                        raise Unsupported('verif_any_bits with a computed mask')
                    m = cval(m)
                return [('field', lv.key, cond, lv.ty, m)]
            raise Unsupported('assigns target ' + str(f))
        if i == 'typecast':
            return self.targets(subs(e)[0], st, fr, cond)
        lv = self.lvalue(e, st, fr)
        return self.targets_lv(lv, cond)

    def targets_lv(self, lv, cond):
        if lv.env is not None:
            return [('env', lv.env, True if z3.is_true(cond) else cond, lv.ty)]
        t = lv.ty
        if t['id'] in ('struct_tag', 'struct', 'union_tag', 'union'):
            return [('range', lv.addr, None, cond, BV(self.p.size(t), 64))]
        if t['id'] == 'array':
            n = self.p.arraylen(t)
            key = lv.key
            if key is None and not self.p.is_agg(subs(t)[0]):
                key = self.gkey(subs(t)[0])
            if n is None or n == 1:
                return [('obj', lv.addr, cond)]
            return [('range', lv.addr, key, cond, BV(self.p.size(t), 64), t)]
        return [('addr', lv.addr, lv.key or self.gkey(t), cond, t, lv.key)]

    def havoc_target(self, s, e, f2, pre, cond):
        tag = self.tag('h')
        for f in self.targets(e, pre, f2, cond):
            if f[0] == 'all':
                if z3.is_false(f[1]):
                    continue
                if z3.is_true(f[1]):
                    self.havoc_all(s, 'all_' + tag)
                    continue
                # only under a condition: both outcomes, joined
                keep, chg = s.copy(), s.copy()
                chg.pc = self.guard_and(s.pc, f[1])
                self.havoc_all(chg, 'all_' + tag)
                keep.pc, chg.pc = Not(f[1]), f[1]
                j = self.merge2(keep, chg)
                s.env, s.mem, s.ev = j.env, j.mem, j.ev
            elif f[0] == 'env':
                t = f[3]
                v = self.fresh('hv_' + f[1], self.sort(t))
                if t['id'] == 'pointer' and not f[1].startswith('g:ghost_') and not self.localargs:
                    self.mark_nonlocal(v)
                c = TRUE if f[2] is True else f[2]
                lv = LV(t, env=f[1])
                self.store(s, lv, Ite(c, v, self.load(s, lv)))
            elif f[0] == 'addr':
                t = f[4]
                v = self.fresh('hv', self.sort(t))
                if t['id'] == 'pointer' and not (f[5] or '').startswith('s:ghost_') and not self.localargs:
                    self.mark_nonlocal(v)
                lv = LV(t, addr=f[1], key=f[5])
                pc0 = s.pc
                s.pc = self.guard_and(pc0, f[3])      # for the frame check
                self.store(s, lv, Ite(f[3], v, self.load(s, lv)))
                s.pc = pc0
            elif f[0] == 'field':
                key, t = f[1], f[3]
                n = self.node(s, key, self.sort(t), t['id'] == 'pointer')
                # a field of objects is no local variable of its own
                self.note_mod(s, ('mem', key, '?' if key.startswith('f:') else '~'))
                if self.frame is not None and not self.specmode:
                    self.oblige(s, 'frame', Implies(f[2], Or(*[g[1] if g[0] == 'all' else g[2] for g in self.frame if g[0] == 'all' or (
                        g[0] == 'field' and g[1] == key and (g[4] is None or (f[4] is not None and f[4] & ~g[4] == 0)))])),
                                'callee assigns %s outside the assigns clause' % key)
                if f[4] is None:
                    s.mem[key] = self.havoc_node(n, key, (lambda a, k_, f=f: And(f[2], self.not_local_scalar(a))), tag)
                else:
                    s.mem[key] = self.bits_node(n, key, f[2], f[4], tag)
            elif f[0] == 'range' and f[2] is not None:
                key = f[2]
                el = subs(f[5])[0]
                n = self.node(s, key, self.sort(el), el['id'] == 'pointer')
                self.note_mod(s, ('mem', key, self.modroot(f[1])))
                self.frame_range(s, f[1], f[4], key, f[3])
                s.mem[key] = self.havoc_node(n, key, (lambda a, k_, f=f: And(f[3], self.inrange(a, f[1], f[4]))), tag)
            elif f[0] in ('range', 'obj'):
                if f[0] == 'range':
                    cnd = (lambda a, k_, f=f: And(f[3], self.inrange(a, f[1], f[4])))
                else:
                    cnd = (lambda a, k_, f=f: And(f[2], self.sameobj(a, f[1])))
                self.note_mod(s, ('rng', self.modroot(f[1])))
                # frame: must itself be allowed
                if self.frame is not None and not self.specmode:
                    r = self.root(f[1])
                    if not (r and r[0] == 'o' and r[1] >= OBJ_L):
                        self.oblige(s, 'frame', Implies(f[3] if f[0] == 'range' else f[2], self.frame_sub(f)), 'callee assigns outside the assigns clause')
                self.event(s, 'havoc', cnd, tag)

    def frame_sub(self, f):
        c = []
        for g in self.frame:
            if g[0] == 'all':
                c.append(g[1])
            elif g[0] == 'obj':
                c.append(And(g[2], Eq(z3.Extract(63, 32, g[1]), z3.Extract(63, 32, f[1]))))
            elif g[0] == 'range' and g[2] is None and f[0] == 'range':
                off = f[1] - g[1]
                c.append(And(g[3], z3.ULE(off, g[4]), z3.ULE(f[4], g[4] - off)))
        return Or(*c)

    def sameobj(self, a, b):
        ra, rb = self.root(a), self.root(b)
        if ra and rb:
            if ra[0] == 'o' and rb[0] == 'o':
                return TRUE if ra[1] == rb[1] else FALSE
            if ra == rb:
                return TRUE
            if ra[0] != rb[0] and (ra[1] if ra[0] == 'o' else rb[1]) >= OBJ_L:
                return FALSE
        return Eq(z3.Extract(63, 32, a), z3.Extract(63, 32, b))

    # ---------------------------------------------------------------- builtins
    def b_abort(self, s, fr, vals, args, ins, lhs):
        if self.cfg.get('abort_is_error'):
            self.oblige(s, 'abort', FALSE, 'abort reached')
        return None

    def b_exit(self, s, fr, vals, args, ins, lhs):
        return None

    def b_unreachable(self, s, fr, vals, args, ins, lhs):
        return None

    def b_expect(self, s, fr, vals, args, ins, lhs):
        return s, vals[0]

    def b_ntohs(self, s, fr, vals, args, ins, lhs):
        return s, self.bswap(vals[0], 16)
    b_htons = b_ntohs

    def b_ntohl(self, s, fr, vals, args, ins, lhs):
        return s, self.bswap(vals[0], 32)
    b_htonl = b_ntohl

    def b_bswap16(self, s, fr, vals, args, ins, lhs):
        return s, self.bswap(vals[0], 16)

    def b_bswap32(self, s, fr, vals, args, ins, lhs):
        return s, self.bswap(vals[0], 32)

    def alloc(self, s, fr, ins, what):
        oid = self.objid(('m', fr.path, ins.idx, what), OBJ_L)
        return oid

    def b_DoMalloc(self, s, fr, vals, args, ins, lhs):
        oid = self.alloc(s, fr, ins, 'm')
        return s, self.objaddr(oid)
    b_MyMalloc = b_DoMalloc
    b_DoMallocZero = None

    def b_malloc(self, s, fr, vals, args, ins, lhs):
        if self.cfg.get('malloc_may_fail'):
            oid = self.alloc(s, fr, ins, 'm')
            b = self.fresh('malloc_ok', z3.BoolSort())
            return s, Ite(b, self.objaddr(oid), BV(0, 64))
        return self.b_DoMalloc(s, fr, vals, args, ins, lhs)

    def zero_obj(self, s, oid):
        self.note_mod(s, ('rng', oid))
        self.event(s, 'zero', (lambda a, k_, o=oid: self.inobj(a, o)), self.tag('z'))

    def b_calloc(self, s, fr, vals, args, ins, lhs):
        oid = self.alloc(s, fr, ins, 'c')
        self.zero_obj(s, oid)
        return s, self.objaddr(oid)
    b_DoCalloc = b_calloc

    def b_free(self, s, fr, vals, args, ins, lhs):
        return s, None
    b_DoFree = b_free
    b_MyFree = b_free

    def ptr_el(self, a):
        """static pointee type under casts to void*"""
        x = a
        while x['id'] == 'typecast' and subs(x) and ety(x)['id'] == 'pointer':
            if subs(ety(x))[0]['id'] not in ('empty',) and not (subs(ety(x))[0]['id'] in ('signedbv', 'unsignedbv') and self.p.width(subs(ety(x))[0]) == 8 and ety(subs(x)[0])['id'] == 'pointer'):
                break
            x = subs(x)[0]
        t = ety(x)
        if t['id'] == 'array':
            return subs(t)[0]
        if t['id'] == 'pointer':
            if x['id'] == 'address_of' and subs(x)[0]['id'] == 'index':
                return ety(subs(x)[0])
            return subs(t)[0]
        return None

    def argkey(self, a, s, fr):
        return None

    def b_memset(self, s, fr, vals, args, ins, lhs):
        el = self.ptr_el(args[0])
        n = self.toint64(vals[2], ety(args[2]))
        v = self.ext(vals[1], 8, False)
        self.fill(s, el, vals[0], v, n)
        return s, vals[0]

    def fill(self, s, el, dst, v, n):
        if el is not None and el['id'] in ('signedbv', 'unsignedbv') and self.p.width(el) == 8:
            nd = self.node(s, 't:8', z3.BitVecSort(8), False)
            self.note_mod(s, ('mem', 't:8', self.modroot(dst)))
            self.frame_range(s, dst, n, 't:8')
            s.mem['t:8'] = Node('fillc', nd, (lambda a, k_: self.inrange(a, dst, n)), v, 't:8')
            return
        if not (is_c(v) and cval(v) == 0):
            if el is not None and is_c(v) and el['id'] in ('signedbv', 'unsignedbv'):
                w = self.p.width(el)
                x = 0
                for k in range(w // 8):
                    x |= cval(v) << (8 * k)
                key = self.gkey(el)
                nd = self.node(s, key, self.sort(el), False)
                self.note_mod(s, ('mem', key, self.modroot(dst)))
                self.frame_range(s, dst, n, key)
                s.mem[key] = Node('fillc', nd, (lambda a, k_: self.inrange(a, dst, n)), BV(x, w), key)
                return
            if el is not None and is_c(v) and is_c(n) and self.p.is_agg(el) and el['id'] not in ('union', 'union_tag') and cval(n) % self.p.size(el) == 0 and cval(n) // self.p.size(el) <= 16:
                for k in range(cval(n) // self.p.size(el)):
                    self.fill_agg(s, el, add64(dst, BV(k * self.p.size(el), 64)), v)
                return
            raise Unsupported('memset of nonzero typed memory')
        if el is not None and is_c(n) and el['id'] in ('struct_tag', 'struct') and cval(n) == self.p.size(el) and cval(n) <= 32 and self.plain_words(el):
            return self.fill_agg(s, el, dst, BV(0, 8))
        self.note_mod(s, ('rng', self.modroot(dst)))
        if self.frame is not None and not self.specmode:
            r = self.root(dst)
            if not (r and r[0] == 'o' and r[1] >= OBJ_L):
                self.oblige(s, 'frame', self.frame_sub(('range', dst, None, TRUE, n)), 'memset outside assigns clause')
        self.event(s, 'zero', (lambda a, k_: self.inrange(a, dst, n)), self.tag('z'))

    def plain_words(self, t):
        """only integers (in arrays and structs) in t"""
        if t['id'] in ('struct_tag', 'struct'):
            return all(self.plain_words(ct) for n, ct, off in self.p.components(t))
        if t['id'] == 'array':
            return self.p.arraylen(t) is not None and self.plain_words(subs(t)[0])
        return t['id'] in ('signedbv', 'unsignedbv')

    def fill_agg(self, st, t, dst, v, key=None):
        """every scalar of the aggregate gets the byte v repeated"""
        if t['id'] in ('struct_tag', 'struct'):
            tag = self.p.tagname(t)
            for n, ct, off in self.p.components(t):
                if n.startswith('$pad'):
                    continue
                kk = '%s.%s' % (tag, n)
                key = None
                if tag is not None and kk not in self.p.esc_fields:
                    if not self.p.is_agg(ct):
                        key = 'f:' + kk
                    elif ct['id'] == 'array' and not self.p.is_agg(subs(ct)[0]):
                        key = 'a:' + kk
                self.fill_agg(st, ct, add64(dst, BV(off, 64)), v, key)
            return
        if t['id'] == 'array':
            n = self.p.arraylen(t)
            if n is None or n > 64:
                raise Unsupported('memset of a large array member')
            for k in range(n):
                self.fill_agg(st, subs(t)[0], add64(dst, BV(k * self.p.size(subs(t)[0]), 64)), v, key)
            return
        if t['id'] not in ('signedbv', 'unsignedbv'):
            raise Unsupported('memset of nonzero typed memory')
        w = self.p.width(t)
        x = 0
        for k in range(w // 8):
            x |= cval(v) << (8 * k)
        self.store(st, LV(t, addr=dst, key=key), BV(x, w))

    def b_memcpy(self, s, fr, vals, args, ins, lhs):
        el = self.ptr_el(args[0])
        el2 = self.ptr_el(args[1])
        n = self.toint64(vals[2], ety(args[2]))
        if el is None or el['id'] == 'empty':
            el = el2
        if el['id'] in ('struct_tag', 'union_tag', 'struct', 'array'):
            sz = self.p.size(el)
            if is_c(n) and cval(n) == sz:
                self.copy_agg(s, el, vals[0], vals[1], None, None, s.copy())
                return s, vals[0]
            if is_c(n) and cval(n) % sz == 0 and cval(n) // sz <= 64:
                s0 = s.copy()
                for k in range(cval(n) // sz):
                    self.copy_agg(s, el, add64(vals[0], BV(k * sz, 64)), add64(vals[1], BV(k * sz, 64)), None, None, s0)
                return s, vals[0]
            raise Unsupported('memcpy of struct with odd size')
        if el2 is not None and el2['id'] != 'empty' and el2['id'] in ('signedbv', 'unsignedbv', 'pointer') and self.gkey(el2) != self.gkey(el):
            # type-punning copy: bytes of one into the other, only small constant sizes
            if is_c(n) and cval(n) <= 64:
                return self.pun_copy(s, el, el2, vals, n)
            raise Unsupported('type-punning memcpy')
        key = self.gkey(el)
        self.copy_range(s, key, key, el, vals[0], vals[1], n, s.copy())
        return s, vals[0]
    b_memmove = b_memcpy

    def pun_copy(self, s, del_, sel, vals, n):
        n = cval(n)
        dw, sw = self.p.width(del_) // 8, self.p.width(sel) // 8
        by = []
        s0 = s
        for k in range(0, n, sw):
            v = self.load(s0, LV(sel, addr=add64(vals[1], BV(k, 64))))
            for j in range(sw):
                by.append(z3.Extract(8 * j + 7, 8 * j, v))
        for k in range(0, n, dw):
            ch = by[k:k + dw]
            if len(ch) < dw:
                raise Unsupported('partial punned copy')
            v = ch[0] if dw == 1 else z3.Concat(*reversed(ch))
            self.store(s, LV(del_, addr=add64(vals[0], BV(k, 64))), z3.simplify(v))
        return s, vals[0]

    def b_strlen(self, s, fr, vals, args, ins, lhs):
        return s, self.strlen(s, vals[0])

    def strlen(self, s, p):
        r = self.root(p)
        if is_c(p) and (cval(p) >> 32) in self.consttab:
            tab = self.consttab[cval(p) >> 32]
            k = cval(p) & 0xffffffff
            n = 0
            while True:
                v = tab.get(('t:8', k + n))
                if v is None:
                    break
                if cval(v) == 0:
                    return BV(n, 64)
                n += 1
        nd = self.node(s, 't:8', z3.BitVecSort(8), False)
        key = ('strlen', nd.nid, p.get_id())
        if key in self.memo:
            return self.memo[key][1]
        u = z3.Function('strlen{%d}' % nd.nid, z3.BitVecSort(64), z3.BitVecSort(64))
        v = u(p)
        self.memo[key] = (p, v)
        mx = self.cfg.get('strmax', 1 << 30)
        self.fact(z3.ULT(v, BV(mx, 64)))
        end = self.read(nd, add64(p, v))
        self.fact(Eq(end, BV(0, 8)))
        c0 = self.read(nd, p)
        self.fact(Eq(v, BV(0, 64)) == Eq(c0, BV(0, 8)))
        k = self.fresh('sl', z3.BitVecSort(64))
        q = self.qvars
        self.qvars = q | {k.decl().name()}
        body = Not(Eq(self.read(nd, add64(p, k)), BV(0, 8)))
        self.qvars = q
        self.fact(z3.ForAll([k], z3.Implies(z3.ULT(k, v), body)))
        return v

    # ---------------------------------------------------------------- top level
    def verify(self, name):
        """Generate all obligations for function `name` against its contract."""
        for attempt in range(40):
            try:
                self.begin(name)
                self.dirty = False
                self._verify(name)
                if not self.dirty:
                    return self.obs
            except Restart:
                continue
        raise Unsupported('loop modification sets did not stabilise for ' + name)

    def begin(self, name):
        self.target = name
        self.facts = []
        self.obs = []
        self.nfresh = 0
        self.ntag = 0
        self.bases = {}
        self.keysorts = {'t:8': (z3.BitVecSort(8), False)}
        self.ginit = {}
        self.nonlocals = {}
        self.rootcache = {}
        self.fld = {}
        self.reading = None
        self.readfld = None
        self.projmemo = {}
        self.aeqmemo = {}
        self.probes = {}
        self.qvars = set()
        self.specmode = False
        self.specseq = 0
        self.specdepth = 0
        self.recdepth = 0
        self.unfolded = {}
        self.recjoined = {}
        self.pending = {}
        self.memo = {}
        self.frame = None
        self.cur = None
        self.constsyms = set()
        self.constchecked = set()
        self.consttab = {k: v for k, v in self.consttab.items()}
        self.tabcache = {}
        self.topframe = Frame('top', '')
        self.dummyst = State()
        d = self.dummyst
        d.pc, d.env, d.mem, d.ev, d.abs = TRUE, {}, {}, None, ()
        self.havoc_loops = set()
        self.inv_loops = set()
        self.prestored = set()
        self.ptrchk = {}
        self.exitguard = FALSE
        self.footprints = {}

    def _verify(self, name):
        fn = self.p.functions[name]
        if not fn.has_body:
            raise Unsupported('no body for ' + name)
        st = State()
        st.pc, st.env, st.mem, st.ev, st.abs = TRUE, {}, {}, None, ()
        fr = Frame('M', name)
        vals = []
        for pid in fn.params:
            pt = self.p.symbols[pid]['type']
            if self.p.is_agg(pt):
                oid = self.objid(('arg', name, pid), OBJ_L)
                vals.append(LV(pt, addr=self.objaddr(oid)))
                continue
            v = z3.Const('arg_' + pid.split('::')[-1], self.sort(pt))
            if pt['id'] == 'pointer':
                self.mark_nonlocal(v)
            vals.append(v)
        # parameters whose address is taken live in memory: there before the pre-state is recorded
        f0 = Frame('M>' + name + ':', name)
        fn.analyse()
        self.prestored = set()
        for pid, v in zip(fn.params, vals):
            if pid and not isinstance(v, LV):
                lv = self.symlv(pid, self.p.symbols[pid]['type'], st, f0)
                if lv.addr is not None:
                    self.store(st, lv, v, False)
                    self.prestored.add(('M>' + name + ':', pid))
        self.args = vals
        self.argnames = [p.split('::')[-1] for p in fn.params]
        f2 = Frame('M', name)
        has = name in self.p.contracts
        if has:
            for lam in self.contract_parts(name, '#spec_requires'):
                f2.subst = self.bind(name, lam, vals, None, None)
                c = self.tobool(self.eval(subs(lam)[1], st, f2))
                self.fact(c)
            asg = self.contract_parts(name, '#spec_assigns')
            if ns(self.p.contracts[name], '#spec_assigns') is not None and not self.cfg.get('noframe'):
                fr_list = []
                for lam in asg:
                    f2.subst = self.bind(name, lam, vals, None, None)
                    fr_list += self.targets(subs(lam)[1], st, f2, TRUE)
                self.frame = fr_list
        pre = st.copy()
        fr0, self.frame = self.frame, None
        # parameters themselves are locals
        self.frame = fr0
        out = self.run(name, list(vals), st, 'M>' + name + ':')
        if out is None:
            self.exitguard = FALSE
            return
        s, ret = out
        self.exitguard = s.pc
        self.cur = fn.instrs[-1]
        if has:
            f2.oldst = pre
            for k, lam in enumerate(self.contract_parts(name, '#spec_ensures')):
                f2.subst = self.bind(name, lam, vals, None, ret)
                c = self.tobool(self.eval(subs(lam)[1], s, f2))
                self.oblige(s, 'ensures', c, 'postcondition %d of %s' % (k + 1, name))


class Frame(object):
    __slots__ = ('path', 'func', 'subst', 'oldst', 'oldsubst', 'retkey', 'rett', 'entry')

    def __init__(self, path, func):
        self.path = path
        self.func = func
        self.subst = {}
        self.oldst = None
        self.oldsubst = None
        self.retkey = None
        self.rett = None
        self.entry = None

    def clone(self):
        f = Frame(self.path, self.func)
        f.subst = self.subst
        f.oldst = self.oldst
        f.oldsubst = self.oldsubst
        f.retkey = self.retkey
        f.rett = self.rett
        f.entry = self.entry
        return f

    def bindname(self, ident):
        return self.path + '|' + ident
