"""Loads a goto program (produced by goto-cc from the real C sources) as JSON.

Nothing here interprets the program: it is a typed view over the irep dump that
`goto-instrument --show-goto-functions --json-ui` / `--show-symbol-table
--json-ui` print, plus struct layout and loop structure.
"""
import json
import subprocess


class Unsupported(Exception):
    pass


def ns(e, k, d=None):
    v = e.get('namedSub')
    if v is None:
        return d
    return v.get(k, d)


def nsid(e, k, d=None):
    v = ns(e, k)
    return d if v is None else v['id']


def subs(e):
    return e.get('sub', [])


def ety(e):
    return ns(e, 'type')


class Instr:
    __slots__ = ('op', 'code', 'guard', 'targets', 'line', 'file', 'idx', 'func', 'macro')

    def __repr__(self):
        return '%s#%d %s' % (self.func, self.idx, self.op)


class Loop:
    __slots__ = ('head', 'body', 'parent', 'topo', 'inner', 'ident', 'marker')


class Function:
    def __init__(self, name):
        self.name = name
        self.params = []
        self.instrs = []
        self.has_body = False
        self._order = None

    def succs(self, i):
        ins = self.instrs[i]
        if ins.op == 'END_FUNCTION':
            return []
        if ins.op == 'GOTO':
            t = ins.targets[0]
            if ins.guard is None or (ins.guard['id'] == 'constant' and nsid(ins.guard, 'value') == 'true'):
                return [t]
            if ins.guard['id'] == 'constant' and nsid(ins.guard, 'value') == 'false':
                return [i + 1]
            return [t, i + 1]
        return [i + 1]

    def analyse(self):
        """Topological numbering with nested loops (recursive SCCs)."""
        if self._order is not None:
            return
        n = len(self.instrs)
        reach = set()
        st = [0]
        while st:
            i = st.pop()
            if i in reach:
                continue
            reach.add(i)
            st.extend(self.succs(i))
        self.topo = [0] * n
        self.loopof = [None] * n
        self.loops = []
        cnt = [0]

        def sccs(nodes, succ):
            index, low, onst, stack, out = {}, {}, set(), [], []
            c = [0]
            for root in sorted(nodes):
                if root in index:
                    continue
                work = [(root, iter([s for s in succ(root) if s in nodes]))]
                index[root] = low[root] = c[0]
                c[0] += 1
                stack.append(root)
                onst.add(root)
                while work:
                    v, it = work[-1]
                    adv = False
                    for w in it:
                        if w not in index:
                            index[w] = low[w] = c[0]
                            c[0] += 1
                            stack.append(w)
                            onst.add(w)
                            work.append((w, iter([s for s in succ(w) if s in nodes])))
                            adv = True
                            break
                        elif w in onst:
                            low[v] = min(low[v], index[w])
                    if adv:
                        continue
                    work.pop()
                    if work:
                        low[work[-1][0]] = min(low[work[-1][0]], low[v])
                    if low[v] == index[v]:
                        comp = []
                        while True:
                            w = stack.pop()
                            onst.discard(w)
                            comp.append(w)
                            if w == v:
                                break
                        out.append(comp)
            out.reverse()       # topological order
            return out

        def rec(nodes, parent, cut):
            succ = (lambda i: [s for s in self.succs(i) if s not in cut])
            for comp in sccs(nodes, succ):
                cs = set(comp)
                if len(comp) == 1 and comp[0] not in succ(comp[0]):
                    self.topo[comp[0]] = cnt[0]
                    self.loopof[comp[0]] = parent
                    cnt[0] += 1
                    continue
                entries = [i for i in comp if i == 0 or any(
                    i in self.succs(p) and p not in cs for p in reach)]
                lp = Loop()
                lp.head = min(entries) if entries else min(comp)
                lp.body = cs
                lp.parent = parent
                lp.topo = cnt[0]
                lp.inner = []
                lp.marker = None
                lp.ident = len(self.loops)
                self.loops.append(lp)
                if parent:
                    parent.inner.append(lp)
                rec(cs, lp, cut | {lp.head})
                # nested calls set loopof for direct members
        rec(reach, None, frozenset())
        # a loop's nesting chain for each instr
        for i in range(n):
            if self.topo is None:
                break
        self._order = True
        self.reach = reach

    def nest(self, i):
        r = []
        l = self.loopof[i]
        while l is not None:
            r.append(l)
            l = l.parent
        r.reverse()
        return r


class Program:
    def __init__(self, gb):
        out = subprocess.run(['goto-instrument', '--show-goto-functions', '--json-ui', gb],
                             stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        js = json.loads(out, strict=False)
        out2 = subprocess.run(['goto-instrument', '--show-symbol-table', '--json-ui', gb],
                              stdout=subprocess.PIPE, stderr=subprocess.DEVNULL, check=True).stdout
        js2 = json.loads(out2)
        self.symbols = {}
        for x in js2:
            if 'symbolTable' in x:
                self.symbols = x['symbolTable']
        self.functions = {}
        for x in js:
            for f in x.get('functions', []):
                fn = Function(f['name'])
                fn.params = f.get('parameterIdentifiers', [])
                ins = f.get('instructions', [])
                fn.has_body = bool(ins)
                locmap = {}
                for k, i in enumerate(ins):
                    locmap[i['locationNumber']] = k
                for k, i in enumerate(ins):
                    o = Instr()
                    o.op = i['instructionId']
                    o.code = i.get('code')
                    o.guard = i.get('guard')
                    o.targets = [locmap[t] for t in i.get('targets', [])]
                    sl = i.get('sourceLocation', {})
                    o.line = sl.get('line', '?')
                    o.file = sl.get('file', '?')
                    o.idx = k
                    o.func = f['name']
                    o.macro = None
                    fn.instrs.append(o)
                self.functions[f['name']] = fn
        self._layout = {}
        self.contracts = {}
        for n, s in self.symbols.items():
            if n.startswith('contract::'):
                self.contracts[n[len('contract::'):]] = s['type']
        self._escape()

    # ---- types -------------------------------------------------------
    def resolve(self, t):
        while t['id'] in ('struct_tag', 'union_tag', 'c_enum_tag'):
            s = self.symbols.get(nsid(t, 'identifier'))
            if s is None:
                raise Unsupported('incomplete type ' + nsid(t, 'identifier', '?'))
            if t['id'] == 'c_enum_tag':
                ty = s['type']
                if subs(ty):
                    return subs(ty)[0]
                return {'id': 'unsignedbv', 'namedSub': {'width': {'id': '32'}}}
            t = s['type']
        return t

    def tagname(self, t):
        return nsid(t, 'identifier')

    def kind(self, t):
        i = t['id']
        if i in ('struct_tag', 'struct'):
            return 'struct'
        if i in ('union_tag', 'union'):
            return 'union'
        return i

    def is_ptr(self, t):
        return t['id'] == 'pointer'

    def width(self, t):
        i = t['id']
        if i in ('signedbv', 'unsignedbv', 'c_bool', 'floatbv', 'c_bit_field'):
            return int(nsid(t, 'width'))
        if i == 'pointer':
            return 64
        if i == 'c_enum_tag':
            return self.width(self.resolve(t))
        if i == 'bool':
            return 1
        raise Unsupported('width of ' + i)

    def signed(self, t):
        i = t['id']
        if i == 'signedbv':
            return True
        if i in ('unsignedbv', 'c_bool', 'pointer', 'bool', 'floatbv'):
            return False
        if i == 'c_enum_tag':
            return self.signed(self.resolve(t))
        if i == 'c_bit_field':
            return self.signed(self.resolve(subs(t)[0]))
        raise Unsupported('sign of ' + i)

    def is_agg(self, t):
        return t['id'] in ('struct_tag', 'union_tag', 'struct', 'union', 'array')

    def bits(self, t):
        i = t['id']
        if i in ('signedbv', 'unsignedbv', 'c_bool', 'floatbv', 'c_bit_field', 'pointer'):
            return self.width(t)
        if i == 'bool':
            return 8
        if i == 'c_enum_tag':
            return self.width(t)
        if i == 'array':
            n = self.arraylen(t)
            if n is None:
                raise Unsupported('sizeof of incomplete array')
            return n * self.bits(subs(t)[0])
        if i in ('struct_tag', 'struct'):
            r = self.resolve(t)
            return sum(self.bits(ety(c)) for c in ns(r, 'components')['sub']) if ns(r, 'components') else 0
        if i in ('union_tag', 'union'):
            r = self.resolve(t)
            return max(self.bits(ety(c)) for c in ns(r, 'components')['sub'])
        if i in ('empty', 'code'):
            return 8
        raise Unsupported('bits of ' + i)

    def size(self, t):
        key = None
        if t['id'] in ('struct_tag', 'union_tag'):
            key = nsid(t, 'identifier')
            if key in self._layout and 'size' in self._layout[key]:
                return self._layout[key]['size']
        b = (self.bits(t) + 7) // 8
        if key:
            self._layout.setdefault(key, {})['size'] = b
        return b

    def arraylen(self, t):
        s = ns(t, 'size')
        if s is None or s['id'] != 'constant':
            return None
        return int(nsid(s, 'value'), 16)

    def components(self, t):
        """[(name, type, byte offset)] ; for unions all offset 0"""
        r = self.resolve(t)
        key = nsid(t, 'identifier') if t['id'] in ('struct_tag', 'union_tag') else None
        if key and key in self._layout and 'comps' in self._layout[key]:
            return self._layout[key]['comps']
        out = []
        off = 0
        if ns(r, 'components') is None:
            raise Unsupported('incomplete struct %s' % key)
        for c in ns(r, 'components').get('sub', []):
            ct = ety(c)
            if r['id'] == 'union':
                out.append((nsid(c, 'name'), ct, 0))
            else:
                out.append((nsid(c, 'name'), ct, off // 8))
                off += self.bits(ct)
        if key:
            self._layout.setdefault(key, {})['comps'] = out
        return out

    def component(self, t, name):
        for n, ct, off in self.components(t):
            if n == name:
                return ct, off
        # anonymous members
        for n, ct, off in self.components(t):
            if n.startswith('$anon') and ct['id'] in ('struct_tag', 'union_tag'):
                try:
                    t2, o2 = self.component(ct, name)
                    return t2, off + o2
                except KeyError:
                    pass
        raise KeyError(name)

    # ---- escape analysis ----------------------------------------------
    def _walk(self, e, fn):
        st = [e]
        while st:
            x = st.pop()
            if isinstance(x, dict):
                fn(x)
                st.extend(x.get('sub', ()))
                v = x.get('namedSub')
                if v:
                    for k, y in v.items():
                        if k in ('type', '#source_location', '#c_type'):
                            continue
                        st.append(y)

    def _escape(self):
        self.esc_fields = set()    # 'S.f' : address of the (scalar or array) member is taken
        self.esc_syms = set()      # symbols whose address is taken

        def mark(x):
            while True:
                i = x['id']
                if i == 'index':
                    x = subs(x)[0]
                    continue
                if i == 'member':
                    st = ety(subs(x)[0])
                    self.esc_fields.add('%s.%s' % (self.tagname(st), nsid(x, 'component_name')))
                    t = ety(x)
                    if t['id'] in ('struct_tag', 'union_tag', 'struct', 'union'):
                        return
                    # &arr[i] of a member: enclosing object also at a fixed address (no SSA)
                    x = subs(x)[0]
                    while x['id'] == 'member':
                        x = subs(x)[0]
                    if x['id'] == 'index':
                        x = subs(x)[0]
                    if x['id'] == 'symbol':
                        self.esc_syms.add(nsid(x, 'identifier'))
                    return
                if i == 'symbol':
                    self.esc_syms.add(nsid(x, 'identifier'))
                    return
                if i == 'typecast':
                    x = subs(x)[0]
                    continue
                return

        def visit(x):
            if x['id'] == 'address_of':
                mark(subs(x)[0])
            elif x['id'] == 'side_effect':
                pass
            elif x['id'] == 'typecast' and ety(x)['id'] == 'pointer':
                s = subs(x)[0]
                if ety(s) and ety(s)['id'] == 'array':
                    mark(s)

        for f in self.functions.values():
            if f.name.startswith('__CPROVER') :
                continue
            for ins in f.instrs:
                if ins.code:
                    self._walk(ins.code, visit)
                if ins.guard:
                    self._walk(ins.guard, visit)
        for n, s in self.symbols.items():
            v = s.get('value')
            if v and v.get('id') not in ('nil', None) and s.get('isStaticLifetime'):
                self._walk(v, visit)
            if n.startswith('contract::'):
                t = s['type']
                for k in ('#spec_requires', '#spec_ensures', '#spec_assigns'):
                    if ns(t, k):
                        self._walk(ns(t, k), visit)
