"""Command line of every check:  python3 lib/runner.py C01 [--tier quick|thorough] [--replay FILE] [--space NAME]"""
import os, sys, json, time, argparse, importlib, logging

HERE = os.path.dirname(os.path.abspath(__file__))
ROOT = os.path.dirname(HERE)
REPO = os.environ.get('MC_REPO', '/repo')


def load_known():
    known = {}
    p = os.path.join(ROOT, 'known_findings.txt')
    if os.path.exists(p):
        for line in open(p):
            line = line.strip()
            if line.startswith('known: '):
                # known: property=<id> sig=<sig> <what fails>
                parts = line[len('known: '):].split(' ', 2)
                pid = parts[0].split('=', 1)[1]
                sig = parts[1].split('=', 1)[1]
                known.setdefault(pid, {})[sig] = parts[2]
    return known


def jsonable(x):
    if isinstance(x, (bytes, bytearray)):
        return {'__bytes__': bytes(x).hex()}
    if isinstance(x, (list, tuple)):
        return [jsonable(i) for i in x]
    if isinstance(x, dict):
        return {str(k): jsonable(v) for k, v in x.items()}
    if isinstance(x, (str, int, float, bool)) or x is None:
        return x
    return repr(x)


def unjson(x):
    if isinstance(x, dict):
        if set(x) == {'__bytes__'}:
            return bytes.fromhex(x['__bytes__'])
        return {k: unjson(v) for k, v in x.items()}
    if isinstance(x, list):
        return [unjson(i) for i in x]
    return x


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('id')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--replay')
    ap.add_argument('--space')
    ap.add_argument('--maxv', type=int, default=1)
    ap.add_argument('--all', action='store_true', help='collect many violations (development)')
    args = ap.parse_args()
    tier = args.tier if args.tier in ('quick', 'thorough') else 'quick'
    seed = int(os.environ.get('VERIF_SEED') or 1)

    sys.dont_write_bytecode = True
    sys.path.insert(0, os.path.join(REPO, 'src'))
    sys.path.insert(0, ROOT)
    sys.path.insert(0, HERE)
    import aaf2
    src = os.path.realpath(os.path.dirname(aaf2.__file__))
    want = os.path.realpath(os.path.join(REPO, 'src', 'aaf2'))
    if src != want:
        print('wrong aaf2: %s' % src)
        return 2
    logging.disable(logging.CRITICAL)
    sys.setrecursionlimit(3000)
    from lib import mc
    from lib import util
    mod = None
    for fn in sorted(os.listdir(os.path.join(ROOT, 'checks'))):
        if fn.lower().startswith(args.id.lower() + '_') and fn.endswith('.py'):
            mod = importlib.import_module('checks.' + fn[:-3])
    if mod is None:
        print('no check for', args.id)
        return 2
    t0 = time.time()
    util.make_scratch()
    try:
        spaces = mod.spaces(tier)
        if args.replay:
            r = json.load(open(args.replay))
            sp = [s for s in spaces if s.name == r['space']]
            if not sp:
                sp = [s for s in mod.spaces('thorough') if s.name == r['space']]
            res = mc.run_case(sp[0], unjson(r['case']), mc.Tally())
            if res:
                print('VIOLATION property=%s replay=%s' % (args.id, args.replay))
                print('  ' + res[0])
                return 1
            print('replay: property held')
            return 0
        if args.space:
            spaces = [s for s in spaces if s.name == args.space]
        budget = float(os.environ.get('MC_BUDGET') or (600 if tier == 'quick' else getattr(mod, 'THOROUGH_BUDGET', 3 * 3600)))
        known = load_known().get(args.id, {})
        tally = mc.explore(spaces, t0 + budget, set(known), maxv=(50 if args.all else args.maxv))
    finally:
        util.remove_scratch()
    new, seen_known = [], {}
    for v in tally.violations:
        if v[3] in known:
            seen_known.setdefault(v[3], v)
        else:
            new.append(v)
    wall = time.time() - t0
    ev = {
        'property': args.id, 'tier': tier, 'seed': seed, 'level': mod.LEVEL,
        'wall_s': round(wall, 2), 'violations': len(new),
        'coverage': coverage(mod, spaces, tally, tier),
        'assumptions': getattr(mod, 'ASSUMPTIONS', []),
    }
    os.makedirs(os.path.join(ROOT, 'evidence'), exist_ok=True)
    if not args.space:
        with open(os.path.join(ROOT, 'evidence', args.id + '.json'), 'w') as f:
            json.dump(ev, f, indent=1, sort_keys=True)
    for sig, v in sorted(seen_known.items()):
        print('KNOWN-FINDING: property=%s %s' % (args.id, known[sig]))
    c = ev['coverage']
    print('%s %s: %s' % (args.id, tier, ', '.join('%s=%s' % (k, c[k]) for k in ('evaluations', 'distinct_nontrivial', 'states', 'transitions', 'traces_validated_against_impl') if k in c)),
          'exhaustive=%s' % c['exhaustive'], 'wall=%.1fs' % wall)
    for k, v in sorted(tally.per_space.items()):
        print('   space %-40s %d cases' % (k, v))
    if new:
        os.makedirs(os.path.join(ROOT, 'replays'), exist_ok=True)
        new.sort(key=lambda v: len(json.dumps(jsonable(v[1]))))
        shown = new if args.all else new[:3]
        sigs = set()
        for i, (space, case, msg, sig) in enumerate(shown):
            if args.all:
                k = (space, sig or msg[:24])
                if k in sigs or len(sigs) >= 15:
                    continue
                sigs.add(k)
            rp = os.path.join(ROOT, 'replays', '%s-%d.json' % (args.id, i))
            with open(rp, 'w') as f:
                json.dump({'property': args.id, 'space': space, 'case': jsonable(case), 'message': msg, 'sig': sig}, f, indent=1)
            print('VIOLATION property=%s replay=%s' % (args.id, rp))
            print('   space=%s sig=%s\n   case=%s\n   %s' % (space, sig, json.dumps(jsonable(case))[:600], msg[:(500 if args.all else 1500)]))
        return 1
    return 0


def coverage(mod, spaces, t, tier):
    rule = '; '.join('%s: %s' % (s.name, s.rule) for s in spaces)
    from lib.runner import jsonable as js
    samples = [js(s) for s in t.samples[:12]]
    samples = [s if len(json.dumps(s)) < 1500 else {'space': s['space'], 'case': json.dumps(s['case'])[:1500]} for s in samples]
    common = {'rule': rule, 'samples': samples, 'exhaustive': not t.capped,
              'cases_per_space': t.per_space,
              'distinct_observed_outcomes': len(t.outcomes),
              'outcomes': dict(sorted(t.outcomes.items(), key=lambda kv: -kv[1])[:20])}
    common.update(t.extra)
    if mod.LEVEL == 'model_checking':
        common.update(states=len(t.states), transitions=t.transitions,
                      traces_validated_against_impl=t.executions)
    else:
        common.update(evaluations=t.executions, distinct_nontrivial=len(t.states), transitions=t.transitions)
    return common


if __name__ == '__main__':
    sys.path.insert(0, ROOT)
    try:
        rc = main()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        rc = 2
    sys.stdout.flush()
    os._exit(rc)
