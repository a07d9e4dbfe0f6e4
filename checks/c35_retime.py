"""C35: retime maps integrate speed curves consistently.

Every speed curve of up to a bounded number of key frames over small grids of
times and speeds (zero and negative included), for every interpolation and base
frame, over every requested range; the map is compared with independently
accumulated speeds, and with the whole map.  The sample curves of the
repository over every range, and the integrator itself on exact functions."""
import glob, itertools, os
import aaf2
from aaf2.misc import generate_offset_map
from aaf2 import interpolation
from lib import aafrig, curveref
from lib.mc import Space, Violation, chunks
from checks.c22_keyframes import defs, fresh, set_handles, NAMES, PARAM, TANGENTS
from aaf2.auid import AUID

LEVEL = 'exploration'
ASSUMPTIONS = ['entries are at half frames, the ranges and the first key frame at whole frames',
               'speed between entries is accumulated as the trapezoids of the reference renders in the repository; offsets may be off by 1e-7 relative (1e-5 for curves with near-vertical handles)']
TOL = 1e-7
REPO = os.environ.get('MC_REPO', '/repo')


def check_map(vv, speed, center, base, ranges, tally, bad, tol):
    cache = {}

    def inc(i):
        if i not in cache:
            cache[i] = curveref.accumulated(speed, i / 2.0 - 0.5, i / 2.0)
        return cache[i]

    def offset(i):
        """offset at half frame i"""
        c = int(2 * center)
        if i >= c:
            return sum(inc(k) for k in range(c + 1, i + 1)) + base
        return -sum(inc(k) for k in range(i + 1, c + 1)) + base
    memo = {}
    for start, end in ranges:
        try:
            got = generate_offset_map(vv, start, end)
        except Exception as e:
            bad('map over %s..%s: %r', start, end, e)
        e = end if end is not None else int(list(vv.pointlist)[-1].time)
        want = [i / 2.0 for i in range(2 * start, 2 * e + 1)]
        if [t for t, v in got] != want:
            bad('map over %s..%s has entries at %s', start, end, [t for t, v in got])
        for t, v in got:
            i = int(2 * t)
            if i not in memo:
                memo[i] = offset(i)
            if abs(v - memo[i]) > tol * (1 + abs(memo[i])):
                bad('map over %s..%s: offset %r at %s, expected %r', start, end, v, t, memo[i])
            tally.step()


def run_curves(case, tally):
    f = aaf2.open()
    try:
        defs(f)
        f.dictionary.register_def(f.create.ParameterDef(AUID('8d568313-847e-11d5-935a-50f857c10000'), 'PP_BASE_FRAME_U', '', 'Rational'))
        for one in case:
            kind, times, vals, base, deep = one

            def bad(msg, *a):
                raise Violation('%s: %s' % (one, msg % a), case=[one])
            vv = fresh(f, kind, zip(times, vals))
            pts = [(float(t), float(v)) for t, v in zip(times, vals)]
            if kind == 'bezier':
                pl = list(vv.pointlist)
                pts2 = []
                for i, cp in enumerate(pl):
                    h = ((-1.5, 0.5), (1.5, -0.25))
                    set_handles(f, cp, *h)
                    pts2.append(pts[i] + h)
                pts = pts2
            if base:
                first = list(vv.pointlist)[0]
                if 'ControlPointPointProperties' not in first:
                    first['ControlPointPointProperties'].value = []
                first['ControlPointPointProperties'].append(f.create.ConstantValue('PP_BASE_FRAME_U', base))
            memo = {}

            def speed(t):
                k = round(t * 1000)
                if k not in memo:
                    memo[k] = curveref.value(kind, pts, t)
                return memo[k]
            lo, hi = times[0] - 2, times[-1] + 2
            ranges = [(0, None)] if times[-1] >= 0 else []
            if deep:
                ranges += [(a, b) for a in range(lo, hi + 1) for b in range(a, hi + 1)]
            else:
                ranges += [(lo, hi), (times[0], times[-1]), (times[-1], times[-1]), (times[0], times[0]), (lo, lo), (lo, times[0] - 1), (hi, hi)]
                check_map(vv, speed, times[0], base, ranges, tally, bad, 1e-5 if kind == 'bezier' else TOL)
            try:
                generate_offset_map(vv, hi, lo)
            except ValueError:
                pass
            else:
                bad('range with start after end accepted')
            tally.state(one)
    finally:
        f.close()


def run_samples(case, tally):
    path, stride = case
    with aaf2.open(os.path.join(REPO, path), 'r') as f:
        comp = next(f.content.toplevel())
        seq = [s.segment for s in comp.slots if s.segment.media_kind == 'Picture'][0]
        adapter = list(seq.components)[0]
        og = list(list(adapter.segments)[0].components)[0]
        params = {p.name: p for p in og.parameters}
        vv, ref = params['PARAM_SPEED_MAP_U'], params['PARAM_SPEED_OFFSET_MAP_U']
        start = int(list(ref.pointlist)[0].time)
        n = adapter.length
        whole = dict(generate_offset_map(vv, start, n))
        render = {p.time: p.value for p in ref.pointlist}

        def bad(msg, *a):
            raise Violation('%s: %s' % (path, msg % a))
        err = [abs(v - render[t]) for t, v in whole.items() if t in render]
        if not err or sum(err) / len(err) > 1e-7:
            bad('differs from the reference render by %r on average', err and sum(err) / len(err))
        for a in range(start, n, stride):
            for b in {a, a + 1, min(a + stride, n), n}:
                got = generate_offset_map(vv, a, b)
                if [t for t, v in got] != [i / 2.0 for i in range(2 * a, 2 * b + 1)]:
                    bad('map over %s..%s has entries at %s', a, b, [t for t, v in got])
                for t, v in got:
                    if t in whole and abs(v - whole[t]) > TOL * (1 + abs(v)):
                        bad('map over %s..%s gives %r at %s, the whole map %r', a, b, v, t, whole[t])
                    tally.step()
        tally.state(path)


def run_integrate(case, tally):
    k0, k1, start, end = case
    fn = lambda t: k0 + k1 * t
    got = list(interpolation.integrate_iter(fn, start, end))
    if [t for t, v in got] != [i / 2.0 for i in range(2 * start, 2 * end - 1)]:
        raise Violation('integrating over %s..%s yields times %s' % (start, end, [t for t, v in got]))
    # the sums are exact trapezoids reaching back one sample: area over [start-0.6, t-0.1] per step
    total = 0.0
    for t, v in got:
        total += curveref.accumulated(fn, t - 0.5, t)
        if abs(total - v) > 1e-9 * (1 + abs(total)):
            raise Violation('integral of %s+%st from %s to %s is %r, expected %r' % (k0, k1, start, t, v, total))
        tally.step()
    tally.state(case)


def spaces(tier):
    deep = tier == 'thorough'
    curves = []
    speeds = [0, 1, -1, 2.5] if not deep else [0, 1, -1, 0.3, 2.5]
    tsets = [[0], [0, 3], [2, 4], [-3, -1], [0, 1, 3], [-1, 2, 3]] + ([[0, 2, 3, 5], [3, 7], [1, 2]] if deep else [])
    n = 0
    for kind in NAMES:
        for ts in tsets:
            for vals in itertools.product(speeds, repeat=len(ts)):
                n += 1
                full = len(ts) <= 2 and (kind in ('constant', 'linear') or n % 8 == 0) if not deep else len(ts) <= 3
                curves.append([kind, ts, list(vals), [0, 7, -2.5][n % 3], full])
    samples = sorted(os.path.relpath(p, REPO) for p in glob.glob(os.path.join(REPO, 'tests/test_files/retimes/*.aaf')))
    return [
        Space('samples', [[s, 1 if deep else 8] for s in samples], run_samples, 'sub-ranges of every sample curve against its whole map and the reference render'),
        Space('curves', chunks(curves, 4), run_curves, 'speed curves over grids of times and speeds x interpolation x base frame, over all ranges reaching 2 frames beyond the curve (3 key frames: the distinctive ranges)'),
        Space('integrate', [list(c) for c in itertools.product([0, 1, -2.5], [0, 1, 0.3], range(-3, 4), range(-2, 6)) if c[3] > c[2]], run_integrate, 'linear speeds over all small ranges'),
    ]
