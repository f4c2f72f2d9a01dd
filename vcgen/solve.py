"""Discharges obligations in parallel: z3 (in a forked worker), then cvc5 as second solver."""
import os
import pickle
import select
import signal
import subprocess
import tempfile
import time
import z3


def relevant(facts, goal):
    """cone of influence over uninterpreted symbols (sound: fewer facts)"""
    return facts


_symcache = {}


def uses_quant(ts):
    seen = set()
    st = list(ts)
    while st:
        x = st.pop()
        if x.get_id() in seen:
            continue
        seen.add(x.get_id())
        if z3.is_quantifier(x):
            return True
        st.extend(x.children())
    return False


def query(eng, o, timeout_ms, seed=0, tactic=None):
    fs = eng.facts[:o.nfacts]
    s = z3.Solver() if tactic is None else z3.Tactic(tactic).solver()
    s.set('timeout', timeout_ms)
    if tactic is None and seed:
        s.set('random_seed', seed)
    s.add(*fs)
    s.add(o.guard)
    s.add(z3.Not(o.cond))
    return s


def choices(o, limit=40):
    """conditions that the goal or its path depends on: of conditional terms, and alternatives of the path"""
    n = {}
    seen = set()
    st = [o.cond, o.guard]
    while st:
        x = st.pop()
        if x.get_id() in seen or not z3.is_app(x):
            continue
        seen.add(x.get_id())
        k = x.decl().kind()
        cs = []
        if k == z3.Z3_OP_ITE:
            cs = [x.arg(0)]
        elif k == z3.Z3_OP_OR:
            cs = [c for c in x.children()][:-1]
        for c in cs:
            while z3.is_not(c):
                c = c.arg(0)
            if z3.is_true(c) or z3.is_false(c):
                continue
            r = n.setdefault(c.get_id(), [0, c])
            r[0] += 1
        st.extend(x.children())
    l = sorted(n.values(), key=lambda r: -r[0])
    return [r[1] for r in l[:limit]]


def split_check(fs, o, deadline, step_s=5, max_depth=7):
    """decide the goal case by case; None if some case stays open"""
    cs = choices(o)
    s = z3.Solver()
    s.add(*fs)
    s.add(o.guard)
    s.add(z3.Not(o.cond))

    def go(asm, k, depth):
        if time.time() > deadline:
            return None
        q = z3.Solver()
        q.set('timeout', int(step_s * 1000))
        q.add(*s.assertions())
        q.add(*asm)
        r = q.check()
        if r == z3.unsat:
            return 'unsat'
        if r == z3.sat:
            return q
        # the next condition both values of which are possible
        if k >= len(cs) or depth >= max_depth:
            return None
        for val in (cs[k], z3.Not(cs[k])):
            r = go(asm + [val], k + 1, depth + 1)
            if r != 'unsat':
                return r
        return 'unsat'
    return go([], 0, 0)


def model_text(m):
    return sorted('%s = %s' % (d.name(), m[d]) for d in m.decls() if d.arity() == 0)[:400]


FIRST_S = 6


def first(eng, o, timeout_s):
    """the quick attempt"""
    t0 = time.time()
    try:
        if z3.is_true(z3.simplify(z3.Implies(o.guard, o.cond))):
            return ('unsat', 'simplifier', time.time() - t0, None)
    except z3.Z3Exception:
        pass
    return strategy(eng, o, 'z3', min(timeout_s, FIRST_S))


def strategy(eng, o, how, timeout_s):
    """one way to decide an obligation: (result, solver, seconds, model)"""
    t0 = time.time()
    if how == 'split':
        r = split_check(eng.facts[:o.nfacts], o, time.time() + timeout_s * 2)
        if r == 'unsat':
            return ('unsat', 'z3', time.time() - t0, None)
        if r is not None:
            return ('sat', 'z3', time.time() - t0, model_text(r.model()))
        return ('unknown', 'z3', time.time() - t0, None)
    tac, seed = {'z3': (None, 0), 'z3b': (None, 7), 'z3c': (None, 14), 'qfufbv': ('qfufbv', 0)}[how]
    s = query(eng, o, int(timeout_s * 1000), seed=seed, tactic=tac)
    r = s.check()
    if r == z3.unsat:
        return ('unsat', 'z3', time.time() - t0, None)
    if r == z3.sat:
        return ('sat', 'z3', time.time() - t0, model_text(s.model()))
    return ('unknown', 'z3', time.time() - t0, None)


def reachable(eng, timeout_s=20):
    """vacuity: facts and the exit guard must be satisfiable"""
    s = z3.Solver()
    s.set('timeout', int(timeout_s * 1000))
    s.add(*eng.facts)
    s.add(eng.exitguard)
    r = s.check()
    return str(r)


class Tokens:
    """how many solvers may run at once, over all functions being verified"""
    def __init__(self, n):
        self.r, self.w = os.pipe()
        os.set_blocking(self.r, False)
        os.write(self.w, b'x' * n)

    def take(self):
        try:
            return os.read(self.r, 1) == b'x'
        except BlockingIOError:
            return False

    def give(self):
        os.write(self.w, b'x')


def discharge(eng, obs, timeout_s=60, tokens=None):
    """every obligation first gets a short z3 run of its own; what that leaves open, several ways at once"""
    if tokens is None:
        tokens = Tokens(os.cpu_count() or 4)
    work = ['reach']
    for k, o in enumerate(obs):
        if z3.is_true(o.cond) or z3.is_false(o.guard):
            o.result, o.solver, o.time = 'unsat', 'trivial', 0.0
        else:
            work.append((k, 'first'))
            o.result, o.solver, o.time = 'unknown', 'z3+cvc5', 0.0
    reach = 'unknown'
    kids = {}           # fd -> (pid, what, start, smt file, data)
    done, open_ = set(), {}

    def start(what):
        fn = None
        if what != 'reach' and what[1] == 'cvc5':
            fd, fn = tempfile.mkstemp(suffix='.smt2')
            os.close(fd)
        r, w = os.pipe()
        pid = os.fork()
        if pid == 0:
            try:
                os.close(r)
                signal.signal(signal.SIGINT, signal.SIG_DFL)
                if fn:
                    o = obs[what[0]]
                    with open(fn, 'w') as f:
                        f.write('(set-logic ALL)\n' + query(eng, o, 1000).to_smt2())
                    os.dup2(w, 1)
                    os.dup2(os.open(os.devnull, os.O_WRONLY), 2)
                    os.execvp('cvc5', ['cvc5', '--lang=smt2', '--tlimit=%d' % int(timeout_s * 2000), fn])
                try:
                    if what == 'reach':
                        res = reachable(eng)
                    elif what[1] == 'first':
                        res = first(eng, obs[what[0]], timeout_s)
                    else:
                        res = strategy(eng, obs[what[0]], what[1], timeout_s)
                except Exception as e:
                    res = ('unknown', 'error: %r' % (e,), 0, None)
                with os.fdopen(w, 'wb') as f:
                    pickle.dump(res, f)
            finally:
                os._exit(0)
        os.close(w)
        kids[r] = [pid, what, time.time(), fn, b'']

    def end(fd, kill=False):
        pid, what, t0, fn, data = kids.pop(fd)
        if kill:
            os.kill(pid, signal.SIGKILL)
        os.close(fd)
        os.waitpid(pid, 0)
        if fn:
            os.unlink(fn)
        tokens.give()
        return what, t0, fn, data

    def settle(k, res):
        o = obs[k]
        o.result, o.solver, o.time, o.model = res
        done.add(k)
        for fd in [f for f, v in kids.items() if v[1] != 'reach' and v[1][0] == k]:
            end(fd, True)
        work[:] = [w for w in work if w == 'reach' or w[0] != k]

    hard = timeout_s * 2 + 60
    while work or kids:
        while work and tokens.take():
            start(work.pop(0))
        if not kids:
            time.sleep(0.02)
            continue
        rl, _, _ = select.select(list(kids), [], [], 0.05 if work else 2)
        for fd in rl:
            if fd not in kids:
                continue
            d = os.read(fd, 1 << 16)
            if d:
                kids[fd][4] += d
                continue
            what, t0, fn, data = end(fd)
            if what == 'reach':
                try:
                    reach = pickle.loads(data)
                except Exception:
                    pass
                if not isinstance(reach, str):
                    reach = 'unknown'
                continue
            k, how = what
            if k in done:
                continue
            if fn:
                a = data.decode('latin-1').strip().split('\n')[0]
                res = (a if a in ('sat', 'unsat') else 'unknown', 'cvc5', time.time() - t0, None)
            else:
                try:
                    res = pickle.loads(data)
                except Exception:
                    res = ('unknown', 'worker died', time.time() - t0, None)
            quant = how == 'first' and res[0] == 'unknown' and uses_quant(eng.facts[:obs[k].nfacts] + [obs[k].guard, obs[k].cond])
            if res[0] == 'unsat' or (res[0] == 'sat' and not (fn and open_.get(k, [0, 0])[1])):
                settle(k, res)
                continue
            if how == 'first':
                ways = ['cvc5', 'z3b', 'z3c'] if quant else ['cvc5', 'split', 'qfufbv', 'z3b']
                open_[k] = [len(ways), quant]
                work.extend((k, w) for w in ways)
            else:
                open_[k][0] -= 1
                if open_[k][0] == 0:
                    settle(k, ('unknown', 'z3+cvc5', res[2], None))
        for fd in list(kids):
            if fd in kids and time.time() - kids[fd][2] > hard:
                what = kids[fd][1]
                end(fd, True)
                if what != 'reach' and what[0] not in done:
                    if what[1] == 'first':
                        settle(what[0], ('unknown', 'hard timeout', hard, None))
                    else:
                        open_[what[0]][0] -= 1
                        if open_[what[0]][0] == 0:
                            settle(what[0], ('unknown', 'hard timeout', hard, None))
    return reach
