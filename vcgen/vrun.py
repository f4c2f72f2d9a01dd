"""Developer front end: vrun.py TU.c fn [fn..]  -- verify functions and print every obligation."""
import os, sys, subprocess, tempfile, time, json
sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import gotoir, vc, solve

def build(tu, extra=(), repo='/repo', out=None):
    out = out or tempfile.mktemp(suffix='.gb')
    cmd = ['goto-cc', '-c', '-DHAVE_CONFIG_H', '-DVERIF_CONTRACTS', '-I' + repo + '/include', '-I' + repo,
           '-I/verif/contracts'] + list(extra) + [tu, '-o', out]
    r = subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if r.returncode:
        print(r.stdout.decode()[-3000:])
        raise SystemExit('goto-cc failed')
    return out

if __name__ == '__main__':
    tu = sys.argv[1]
    cfg = {}
    fns = []
    for a in sys.argv[2:]:
        if '=' in a:
            k, v = a.split('=', 1)
            cfg[k] = json.loads(v)
        else:
            fns.append(a)
    t0 = time.time()
    gb = build(tu)
    p = gotoir.Program(gb)
    os.unlink(gb)
    print('load %.1fs' % (time.time() - t0))
    for f in fns:
        t0 = time.time()
        e = vc.Engine(p, cfg)
        obs = e.verify(f)
        t1 = time.time()
        reach = solve.discharge(e, obs, timeout_s=cfg.get('timeout', 30))
        print('== %s: %d obligations, gen %.1fs solve %.1fs facts %d reach=%s' % (f, len(obs), t1 - t0, time.time() - t1, len(e.facts), reach))
        print('   contracts', sorted(e.used_contracts), 'inlined', sorted(e.inlined), 'havoc', sorted(e.used_havoc), 'noeff', sorted(e.used_noeffect), 'hloops', sorted(e.havoc_loops))
        for o in obs:
            if o.result != 'unsat' or cfg.get('v'):
                print('  ', o.result, o.name, o.info, '%s:%s' % (os.path.basename(o.file), o.line), o.solver, '%.1f' % o.time)
                if o.result == 'sat' and cfg.get('m'):
                    for l in o.model[:cfg['m']]:
                        print('        ', l)
