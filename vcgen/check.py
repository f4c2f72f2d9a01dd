"""check.py <property-id>: decides one property from /repo's current source.

1. a mirror of /repo/ircd and /repo/include (symbolic links to the current files; generated
   sources regenerated) is made in a scratch directory;
2. every contract unit of the property is compiled by goto-cc together with the real source file,
   and every function under contract is verified (vc.py generates the obligations, solve.py has
   z3/cvc5 discharge them);
3. if an obligation is not discharged, the property's replay driver is compiled against the real
   sources and searches for a concrete failing input.
"""
import importlib.util
import json
import os
import pickle
import re
import resource
import shutil
import signal
import subprocess
import sys
import tempfile
import time
import traceback

HERE = os.path.dirname(os.path.abspath(__file__))
VERIF = os.path.dirname(HERE)
REPO = os.environ.get('VERIF_REPO', '/repo')
sys.path.insert(0, HERE)
sys.setrecursionlimit(100000)

NOT_IRCD = {'table_gen.c', 'umkpasswd.c', 'convert-conf.c', 'engine_devpoll.c', 'engine_kqueue.c', 'engine_select.c',
            'tls_gnutls.c', 'tls_libtls.c', 'tls_none.c', 'chattr.tab.c', 'ircd_parser.c', 'version.c'}


WORLD_WRAPS = ['deliver_it', 'update_write', 'close', 'socket_del', 'server_die', 'server_restart']


def log(*a):
    print(*a, flush=True)


def sh(cmd, **kw):
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, **kw)
    return r.returncode, r.stdout.decode('latin-1')


class BuildError(Exception):
    pass


def tracked(sub):
    """files of /repo/<sub>, without build products"""
    d = os.path.join(REPO, sub)
    out = []
    for f in sorted(os.listdir(d)):
        if f.endswith(('.c', '.h', '.y')) and f not in ('chattr.tab.c', 'ircd_parser.c', 'ircd_parser.h', 'version.c', 'patchlist.h'):
            out.append(f)
    return out


def mirror(tmp):
    m = os.path.join(tmp, 'src')
    for sub in ('ircd', 'include'):
        os.makedirs(os.path.join(m, sub))
        for f in tracked(sub):
            os.symlink(os.path.join(REPO, sub, f), os.path.join(m, sub, f))
    cfgh = os.path.join(REPO, 'config.h')
    shutil.copy(cfgh if os.path.exists(cfgh) else os.path.join(VERIF, 'support', 'config.h'), os.path.join(m, 'config.h'))
    shutil.copy(os.path.join(VERIF, 'support', 'patchlist.h'), os.path.join(m, 'include', 'patchlist.h'))
    d = os.path.join(m, 'ircd')
    rc, o = sh(['gcc', '-w', '-DHAVE_CONFIG_H', '-I' + m, '-I' + m + '/include', os.path.join(d, 'table_gen.c'), '-o', os.path.join(tmp, 'table_gen')])
    if rc:
        raise BuildError('table_gen: ' + o[-2000:])
    with open(os.path.join(d, 'chattr.tab.c'), 'wb') as f:
        rc = subprocess.run([os.path.join(tmp, 'table_gen')], stdout=f, timeout=60).returncode
    if rc:
        raise BuildError('table_gen failed')
    rc, o = sh(['bison', '-y', '-d', '-o', 'ircd_parser.c', 'ircd_parser.y'], cwd=d)
    if rc:
        raise BuildError('bison: ' + o[-2000:])
    with open(os.path.join(d, 'version.c'), 'w') as f:
        f.write('const char *generation="1"; const char *creation="x"; const char *version="u2.10.12"; const char *infotext[]={"x",0};\n')
    return m


def gotocc(m, tu, tmp, extra=()):
    out = os.path.join(tmp, os.path.basename(tu) + '.gb')
    cmd = ['goto-cc', '-c', '-DHAVE_CONFIG_H', '-DVERIF_CONTRACTS', '-I' + m + '/include', '-I' + m, '-I' + m + '/ircd',
           '-I' + os.path.join(VERIF, 'contracts')] + list(extra) + [os.path.join(VERIF, tu), '-o', out]
    rc, o = sh(cmd)
    if rc:
        raise BuildError('goto-cc %s: %s' % (tu, o[-3000:]))
    return out


# ------------------------------------------------------------------- proof
def verify_one(prog, fn, cfg, timeout_s, tokens=None):
    import vc
    import solve
    t0 = time.time()
    res = {'fn': fn, 'obs': [], 'error': None}
    try:
        e = vc.Engine(prog, cfg)
        obs = e.verify(fn)
        t1 = time.time()
        reach = solve.discharge(e, obs, timeout_s=timeout_s, tokens=tokens)
        res['reach'] = reach
        res['gen_s'] = t1 - t0
        res['solve_s'] = time.time() - t1
        for o in obs:
            res['obs'].append(dict(name=o.name, kind=o.kind, func=o.func, file=os.path.basename(str(o.file)), line=str(o.line), info=str(o.info)[:300],
                                   result=o.result, solver=o.solver, time=o.time or 0.0,
                                   model=(o.model or [])[:200] if o.result != 'unsat' else None))
        for k in ('used_contracts', 'inlined', 'used_havoc', 'used_noeffect', 'used_builtins', 'havoc_loops', 'inv_loops', 'assume_used'):
            res[k] = sorted(str(x) for x in getattr(e, k))
        res['bounded_loops'] = {str(k): v for k, v in e.bounded_loops.items()}
    except Exception as ex:
        res['error'] = '%s: %s' % (type(ex).__name__, ex)
        res['trace'] = traceback.format_exc()[-3000:]
    res['total_s'] = time.time() - t0
    return res


def run_units(prop, m, tmp, deadline, timeout_s):
    """returns list of per-function results"""
    import gotoir
    results = []
    work = []
    progs = {}
    for u in prop['units']:
        try:
            gb = gotocc(m, u['tu'], tmp, u.get('extra', ()))
            key = (u['tu'], tuple(u.get('extra', ())))
            if key not in progs:
                progs[key] = gotoir.Program(gb)
            os.unlink(gb)
        except BuildError as ex:
            for f in u['fns']:
                results.append({'fn': f, 'tu': u['tu'], 'obs': [], 'error': 'contract unit does not compile against the current source: ' + str(ex)})
            continue
        for f in u['fns']:
            work.append((u, f, progs[key]))
    ncpu = os.cpu_count() or 4
    par = max(1, min(len(work), ncpu // 2))
    import solve
    tokens = solve.Tokens(ncpu)
    kids = {}

    def finish(pid):
        r, u, f, fd, t0 = kids.pop(pid)
        try:
            with open(fd, 'rb') as fh:
                res = pickle.load(fh)
        except Exception:
            res = {'fn': f, 'obs': [], 'error': 'verifier process ended without a result'}
        try:
            os.unlink(fd)
        except OSError:
            pass
        res['tu'] = u['tu']
        res['bounded'] = bool(u.get('bounded'))
        results.append(res)

    pending = list(work)
    while pending or kids:
        while pending and len(kids) < par and time.time() < deadline:
            u, f, prog = pending.pop(0)
            fd = os.path.join(tmp, 'res.%d' % len(pending))
            pid = os.fork()
            if pid == 0:
                os.setpgid(0, 0)
                try:
                    fcfg = dict(u.get('cfg', {}))
                    fcfg.update(u.get('fncfg', {}).get(f, {}))
                    if f not in prog.functions or not prog.functions[f].has_body:
                        res = {'fn': f, 'obs': [], 'error': 'function %s under contract is gone from the source' % f}
                    elif f not in prog.contracts and not u.get('nocontract'):
                        res = {'fn': f, 'obs': [], 'error': 'no contract attached to %s' % f}
                    else:
                        res = verify_one(prog, f, fcfg, u.get('timeout', timeout_s), tokens)
                    with open(fd, 'wb') as fh:
                        pickle.dump(res, fh)
                finally:
                    os._exit(0)
            try:
                os.setpgid(pid, pid)
            except OSError:
                pass
            kids[pid] = (None, u, f, fd, time.time())
        if time.time() > deadline:
            for pid in list(kids):
                try:
                    os.killpg(pid, signal.SIGKILL)
                except OSError:
                    pass
            for u, f, prog in pending:
                results.append({'fn': f, 'tu': u['tu'], 'obs': [], 'error': 'time budget exhausted'})
            pending = []
        if kids:
            pid, st = os.waitpid(-1, os.WNOHANG)
            if pid in kids:
                finish(pid)
            elif pid == 0:
                time.sleep(0.02)
    return results


# ----------------------------------------------------------------- witness
def build_ircd(m, tmp, opts=()):
    d = os.path.join(m, 'ircd')
    objs = []
    od = os.path.join(tmp, 'obj')
    os.makedirs(od, exist_ok=True)
    srcs = [f for f in tracked('ircd') if f.endswith('.c') and f not in NOT_IRCD] + ['ircd_parser.c', 'version.c']
    procs = []
    errs = []

    def reap(block):
        for p in list(procs):
            if block or p[0].poll() is not None:
                o = p[0].communicate()[0]
                if p[0].returncode:
                    errs.append((p[1], o.decode('latin-1')))
                procs.remove(p)
                if block:
                    return
    for f in srcs:
        while len(procs) >= (os.cpu_count() or 4):
            reap(False)
            time.sleep(0.005)
        o = os.path.join(od, f[:-2] + '.o')
        objs.append(o)
        cmd = ['gcc', '-w', '-g', '-O1', '-DHAVE_CONFIG_H', '-I' + m, '-I' + m + '/include', '-I' + d] + list(opts)
        if f == 'ircd.c':
            cmd += ['-Dmain=ircd_main']
        procs.append((subprocess.Popen(cmd + ['-c', os.path.join(d, f), '-o', o], stdout=subprocess.PIPE, stderr=subprocess.STDOUT), f))
    while procs:
        reap(True)
    if errs:
        raise BuildError('; '.join('%s: %s' % (f, o[-800:]) for f, o in errs[:3]))
    return objs


def run_witness(prop, m, tmp, seed, tier, budget):
    """-> (found, text)"""
    w = prop.get('witness')
    if not w:
        return False, 'no replay driver for this property'
    wd = os.path.join(tmp, 'w')
    os.makedirs(wd, exist_ok=True)
    exe = os.path.join(wd, 'driver')
    t_end = time.time() + budget
    try:
        flags = ['-w', '-g', '-O1', '-DHAVE_CONFIG_H', '-DVERIF_NATIVE', '-I' + m, '-I' + m + '/include', '-I' + m + '/ircd',
                 '-I' + os.path.join(VERIF, 'contracts'), '-I' + os.path.join(VERIF, 'witness')]
        san = list(w.get('san', []))
        objs = []
        if w.get('ircd') or w.get('world'):
            objs = build_ircd(m, tmp, san)
            objs = [o for o in objs if os.path.basename(o)[:-2] + '.c' not in w.get('exclude', ())]
        else:
            for f in w.get('link', ()):
                o = os.path.join(wd, f[:-2] + '.o')
                rc, out = sh(['gcc'] + flags + san + ['-c', os.path.join(m, 'ircd', f), '-o', o])
                if rc:
                    raise BuildError(out[-2000:])
                objs.append(o)
        wraps = ['-Wl,--wrap=' + x for x in list(w.get('wrap', ())) + (WORLD_WRAPS if w.get('world') else [])]
        rc, out = sh(['gcc'] + flags + san + [os.path.join(VERIF, w['src'])] + objs + wraps + ['-o', exe, '-lcrypt', '-lssl', '-lcrypto', '-lm'])
        if rc:
            raise BuildError(out[-3000:])
    except BuildError as ex:
        return False, 'the replay driver does not build against the current source: ' + str(ex)
    left = max(20, t_end - time.time())

    def pre():
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
        resource.setrlimit(resource.RLIMIT_FSIZE, (1 << 26, 1 << 26))
    scratch = os.path.join(wd, 'cwd')
    os.makedirs(scratch, exist_ok=True)
    outp = os.path.join(wd, 'out')
    with open(outp, 'wb') as of:
        try:
            p = subprocess.Popen([exe, str(seed), tier], cwd=scratch, stdout=of, stderr=subprocess.STDOUT, preexec_fn=pre,
                                 stdin=subprocess.DEVNULL, start_new_session=True)
            rc = p.wait(timeout=left)
        except subprocess.TimeoutExpired:
            os.killpg(p.pid, signal.SIGKILL)
            p.wait()
            rc = 'timeout'
    with open(outp, 'rb') as of:
        txt = of.read()[-20000:].decode('latin-1')
    if rc == 1 and 'WITNESS' in txt:
        return True, txt
    if isinstance(rc, int) and (rc < 0 or rc > 1) and w.get('crash') and 'CASE' in txt:
        return True, txt + '\n(driver ended with status %s on the case above)' % rc
    return False, txt + '\n(driver status %s)' % rc


# -------------------------------------------------------------------- main
def load_prop(pid):
    fn = os.path.join(VERIF, 'props', pid + '.py')
    if os.path.join(VERIF, 'props') not in sys.path:
        sys.path.insert(0, os.path.join(VERIF, 'props'))
    spec = importlib.util.spec_from_file_location('prop_' + pid, fn)
    mod = importlib.util.module_from_spec(spec)
    spec.loader.exec_module(mod)
    return mod.PROP


def main():
    pid = sys.argv[1]
    verbose = '-v' in sys.argv
    only = [a for a in sys.argv[2:] if not a.startswith('-')]
    t0 = time.time()
    tier = os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    prop = load_prop(pid)
    if only:
        prop = dict(prop, units=[dict(u, fns=[f for f in u['fns'] if f in only]) for u in prop['units']])
    total = 780 if tier == 'quick' else 3000
    tmp = tempfile.mkdtemp(prefix='verif-%s-' % pid, dir=os.environ.get('VERIF_TMP', '/tmp'))
    rc = 2
    try:
        rc = decide(pid, prop, tmp, t0, tier, seed, total, verbose, only)
    finally:
        shutil.rmtree(tmp, ignore_errors=True)
    sys.exit(rc)


def decide(pid, prop, tmp, t0, tier, seed, total, verbose, only):
    failures = []
    builderr = None
    results = []
    timeout_s = prop.get('timeout', 40 if tier == 'quick' else 240)
    try:
        m = mirror(tmp)
        results = run_units(prop, m, tmp, t0 + total * 0.6, timeout_s)
    except BuildError as ex:
        builderr = str(ex)
        failures.append(dict(name='build', text=builderr))
    nobs = ndis = nb = nbd = 0
    solver_s = 0.0
    bysolver = {}
    fns = []
    verified = set(r['fn'] for r in results)
    assumed, havoc, noeff, inlined, builtins, assumes = set(), set(), set(), set(), set(), set()
    for r in results:
        bad = 0
        if r.get('error'):
            failures.append(dict(name=r['fn'] + '.generate', fn=r['fn'], text=r['error'], trace=r.get('trace')))
        for o in r['obs']:
            if r.get('bounded'):
                nb += 1
                nbd += o['result'] == 'unsat'
            else:
                nobs += 1
                ndis += o['result'] == 'unsat'
            bysolver[o['solver']] = bysolver.get(o['solver'], 0) + 1
            solver_s += o['time']
            if o['result'] != 'unsat':
                bad += 1
                failures.append(dict(name=o['name'], fn=r['fn'], text='%s [%s] at %s:%s: %s (%s)' % (o['kind'], o['info'], o['file'], o['line'], o['result'], o['solver']), model=o['model']))
        if not r.get('error') and r.get('reach') == 'unsat' and not prop.get('noreturn_ok', {}).get(r['fn']):
            failures.append(dict(name=r['fn'] + '.reachable', fn=r['fn'], text='no execution reaches the end of the function: its contract holds vacuously'))
        if not r.get('error') and not r['obs']:
            failures.append(dict(name=r['fn'] + '.empty', fn=r['fn'], text='no obligation was generated'))
        assumed |= set(r.get('used_contracts', ())) - verified - set(prop.get('proved_elsewhere', {}))
        havoc |= set(r.get('used_havoc', ()))
        noeff |= set(r.get('used_noeffect', ()))
        inlined |= set(r.get('inlined', ()))
        builtins |= set(r.get('used_builtins', ()))
        assumes |= set(r.get('assume_used', ()))
        fns.append(dict(function=r['fn'], unit=r.get('tu'), obligations=len(r['obs']), discharged=sum(o['result'] == 'unsat' for o in r['obs']),
                        exit_reachable=r.get('reach'), generate_s=round(r.get('gen_s', 0), 2), solve_s=round(r.get('solve_s', 0), 2),
                        bounded=r.get('bounded', False), bounded_loops=r.get('bounded_loops', {}), loops_by_invariant=r.get('inv_loops', []), loops_without_invariant=[x.split('#', 1)[-1] for x in r.get('havoc_loops', [])],
                        inlined_callees=r.get('inlined', [])))
        if verbose or r.get('error'):
            log('%-34s obligations %4d  discharged %4d  exit %-7s gen %5.1fs solve %5.1fs %s' % (
                r['fn'], len(r['obs']), sum(o['result'] == 'unsat' for o in r['obs']), r.get('reach'), r.get('gen_s', 0), r.get('solve_s', 0),
                ('ERROR ' + r['error'][:600]) if r.get('error') else ''))
            if verbose and r.get('trace'):
                log(r['trace'])
    status = 0
    witness_txt = None
    found = False
    want_w = bool(failures) or prop.get('always_witness')
    if want_w and prop.get('witness') and '-nw' not in sys.argv:
        try:
            m = os.path.join(tmp, 'src')
            if builderr is None:
                budget = min(max(60, t0 + total - time.time()), 300 if tier == 'quick' else 900)
                found, witness_txt = run_witness(prop, m, tmp, seed, tier, budget)
        except Exception as ex:
            witness_txt = 'replay driver error: %r' % (ex,)
    if verbose and witness_txt:
        log('--- driver:', witness_txt[-3000:])
    if failures or found:
        status = 1
        os.makedirs(os.path.join(VERIF, 'replay'), exist_ok=True)
        rp = os.path.join(VERIF, 'replay', pid + '.txt')
        with open(rp, 'w') as f:
            f.write('property %s violated by %s at %s\n\n' % (pid, REPO, time.strftime('%Y-%m-%dT%H:%M:%SZ', time.gmtime())))
            f.write('FAILED OBLIGATIONS\n')
            for x in failures:
                f.write('- %s: %s\n' % (x['name'], x['text']))
                if x.get('model'):
                    f.write('  counterexample reported by the solver (verifier vocabulary):\n')
                    for l in x['model'][:60]:
                        f.write('    %s\n' % l)
                if x.get('trace'):
                    f.write('  ' + x['trace'].replace('\n', '\n  ') + '\n')
            f.write('\nREPLAY AGAINST THE REAL CODE\n')
            if witness_txt is not None:
                f.write(witness_txt + '\n')
                if prop.get('witness'):
                    f.write('\n(driver: %s, arguments: seed=%d tier=%s; the run is deterministic)\n' % (prop['witness']['src'], seed, tier))
        for x in failures[:12]:
            log('failed obligation: %s: %s' % (x['name'], x['text'][:400]))
        if found:
            for l in witness_txt.split('\n'):
                if 'WITNESS' in l:
                    log(l[:500])
                    break
            log('VIOLATION property=%s replay=%s' % (pid, rp))
        else:
            log('VIOLATION property=%s replay=%s no-failing-input-found' % (pid, rp))
    wall = time.time() - t0
    if not only:
        trusted = ['goto-cc 6.11 front end (parsing and type checking of the C sources)', 'vcgen (this repository: /verif/vcgen, weakest-precondition style VC generator)',
                   'z3 %s, cvc5 1.1.2' % z3v()]
        ass = list(prop.get('assumptions', ()))
        for a in sorted(assumed):
            ass.append('assumed contract (not verified by this check): ' + a)
        for a, b in sorted(prop.get('proved_elsewhere', {}).items()):
            ass.append('contract of %s used here is verified by check %s' % (a, b))
        if havoc:
            ass.append('external functions without contract, treated as changing any non-local memory: ' + ', '.join(sorted(havoc)))
        if noeff:
            ass.append('external functions assumed not to change state the contracts mention: ' + ', '.join(sorted(noeff)))
        if assumes:
            ass.append('explicit assumptions used: ' + ', '.join(sorted(assumes)))
        cov = dict(obligations=nobs, discharged=ndis, checker_cmd='python3-vt /verif/vcgen/check.py %s' % pid, trusted_base=trusted,
                   functions=fns, discharged_by=bysolver, solver_s=round(solver_s, 2),
                   bounded_obligations=nb, bounded_discharged=nbd,
                   builtins_modelled=sorted(builtins))
        if prop.get('witness'):
            cov['replay_driver'] = dict(ran=witness_txt is not None, found_failing_input=found, tail=(witness_txt or '')[-400:])
        ev = dict(property=pid, tier=tier if tier in ('quick', 'thorough') else 'quick', seed=seed, level=prop.get('level', 'proof'), coverage=cov,
                  assumptions=ass, wall_s=round(wall, 2), violations=1 if status else 0)
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
    log('%s: %d/%d obligations discharged over %d functions%s, %.1fs' % (
        pid, ndis, nobs, len(results), (', %d/%d bounded' % (nbd, nb)) if nb else '', wall))
    return status


def z3v():
    import z3
    return z3.get_version_string()


if __name__ == '__main__':
    if os.environ.get('PYTHONHASHSEED') != '0':
        # the same obligations in the same order on every run
        os.environ['PYTHONHASHSEED'] = '0'
        os.execv(sys.executable, [sys.executable] + sys.argv)
    main()
