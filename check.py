#!/usr/bin/env python3
"""check.py <property>: decides one property on /repo's current working tree by static analysis."""
import importlib, json, os, sys, time, traceback
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, 'analyzer'))
import build
from interp import Program, AnalysisError
from common import Ctx, Missing
import rules

CMD = 'python3 check.py %s'


def known():
    out = {}
    f = os.path.join(HERE, 'known-findings.txt')
    if os.path.exists(f):
        for line in open(f):
            if line.startswith('known: property='):
                rest = line[len('known: property='):].strip()
                pid, key = rest.split(' ', 1)
                key, _, what = key.partition(' -- ')
                out.setdefault(pid, {})[key.strip()] = what.strip()
    return out


def decide(pid, dump, tier):
    prog = Program(dump)
    ctx = Ctx(prog, tier)
    try:
        rules.RULES[pid](ctx)
    except Missing:
        pass
    return ctx


def main():
    args = [a for a in sys.argv[1:] if not a.startswith('--')]
    opts = dict(a[2:].split('=', 1) if '=' in a else (a[2:], '1') for a in sys.argv[1:] if a.startswith('--'))
    ids = args or sorted(rules.RULES)
    tier = os.environ.get('VERIF_TIER', 'quick')
    if tier not in ('quick', 'thorough'):
        tier = 'quick'
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    t0 = time.time()
    dump = opts.get('dump')
    own = dump is None
    try:
        if own:
            dump = build.dump()
    except build.BuildError as e:
        print('ERROR: %s' % e)
        return 2
    rc = 0
    kf = known()
    for pid in ids:
        t1 = time.time()
        try:
            ctx = decide(pid, dump, tier)
        except Exception:
            traceback.print_exc()
            print('ERROR: no verdict on %s' % pid)
            rc = max(rc, 2) if rc != 1 else 1
            continue
        wall = time.time() - (t0 if len(ids) == 1 else t1)
        new = {k: v for k, v in ctx.viol.items() if k not in kf.get(pid, {})}
        for k in ctx.viol:
            if k in kf.get(pid, {}):
                print('KNOWN-FINDING: property=%s %s' % (pid, kf[pid][k] or k))
        byrule = {}
        for r, i in ctx.obs:
            byrule.setdefault(r, set()).add(i)
        nob = sum(len(v) for v in byrule.values())
        ev = {
            'property': pid, 'tier': tier, 'seed': seed, 'level': 'other',
            'coverage': {
                'explanation': '%s Decided on the resolved MIR of the working tree: %d rule instances over %d abstract paths through %d analysed functions and %d library call sites.'
                % (rules.DOC.get(pid, ''), nob, ctx.npaths, len(ctx.bodies), len(ctx.sites)),
                'obligations': nob, 'discharged': nob - len(ctx.viol),
                'checker_cmd': CMD % pid,
                'trusted_base': ['rustc MIR construction and callee resolution', 'analyzer/interp.py transfer functions and library models', 'documented behaviour of std, url, miasht, futures 0.1, fibers, serde'],
                'rule_instances': {r: sorted(v)[:60] for r, v in sorted(byrule.items())},
                'functions': sorted(ctx.bodies)[:200],
                'library_call_sites': len(ctx.sites), 'abstract_paths': ctx.npaths,
                'notes': ctx.notes,
                'exported_bodies': len(ctx.P.bodies), 'local_roots': len(ctx.P.roots),
            },
            'assumptions': rules.ASSUME.get(pid, []),
            'wall_s': round(wall, 3), 'violations': len(new),
        }
        edir = os.path.join(HERE, 'evidence')
        os.makedirs(edir, exist_ok=True)
        with open(os.path.join(edir, pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        if new:
            rp = os.path.join(edir, pid + '.violations.txt')
            with open(rp, 'w') as f:
                for k, (msg, site, tr) in sorted(new.items()):
                    f.write('%s\n  rule instance: %s\n  at: %s\n%s\n\n' % (msg, k, site, tr))
            for k, (msg, site, tr) in sorted(new.items())[:12]:
                print('  %s [%s] %s' % (msg, k, site))
            print('VIOLATION property=%s replay=%s' % (pid, rp))
            rc = 1
        else:
            print('%s: holds (%d obligations, %d paths, %d functions, %.1f s)' % (pid, nob, ctx.npaths, len(ctx.bodies), wall))
    if own and os.path.exists(dump):
        os.remove(dump)
    return rc


if __name__ == '__main__':
    sys.exit(main())
