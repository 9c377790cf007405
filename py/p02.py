"""P02: text forms are JSON saying what the objects hold, and the bundled viewer draws them."""
import json, os, re, warnings
import numpy as np
warnings.simplefilter('ignore')
from common import main, Bad
import lmb
from lmb import cf
import observer as ob
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from plots import plot_results
import clmb

SCRATCH = os.environ.get('HARNESS_SCRATCH', '/tmp')


def nope(x):
    raise ValueError('not JSON: ' + x)


def unique(pairs):
    d = dict(pairs)
    if len(d) != len(pairs):
        raise ValueError('a key occurs twice')
    return d


def parse(c, s, what):
    try:
        v = json.loads(s, parse_constant=nope, object_pairs_hook=unique)
    except ValueError as e:
        raise Bad('json:' + what, '%s: %s' % (e, s[:1500]))
    c.count('parsed')
    return v


def near(a, b, digits):
    """a as printed from b with at least so many significant digits."""
    return isinstance(a, (int, float)) and not isinstance(a, bool) and abs(a - b) <= 0.51 * 10.0 ** (1 - digits) * abs(b) + 5e-324 * 2


def number(c, got, want, digits, key, s):
    c.need(near(got, want, digits), key, lambda: '%r printed as %r in %s' % (want, got, s[:1500]))


def matrix(c, got, want, rows, cols, key, s, order='F'):
    w = np.array(want, dtype=float).reshape((rows, cols), order=order)
    c.need(isinstance(got, list) and len(got) == rows and all(isinstance(r, list) and len(r) == cols for r in got), key, lambda: 'shape of %r in %s' % (got, s[:1500]))
    for i in range(rows):
        for j in range(cols):
            number(c, got[i][j], w[i, j], 15, key, s)
    c.count('numbers', rows * cols)


def gaussian(c, g, want, key, s):
    x, P, w = want
    n = len(x)
    c.need(set(g) == {'type', 'w', 'x', 'P'} and g['type'] == 'G', key, lambda: 'fields %r' % g)
    number(c, g['w'], w, 6, key + '.w', s)
    matrix(c, g['x'], x, n, 1, key + '.x', s)
    matrix(c, g['P'], P, n, n, key + '.P', s)


def mixture(c, g, want, key, s):
    c.need(set(g) == {'type', 'c'} and g['type'] == 'GM' and len(g['c']) == len(want), key, lambda: '%d components in %s' % (len(want), s[:1500]))
    for a, b in zip(g['c'], want):
        gaussian(c, a, b, key, s)


def whole(c, got, want, key, s):
    c.need(isinstance(got, int) and not isinstance(got, bool) and got == want, key, lambda: '%r printed as %r in %s' % (want, got, s[:800]))


def target(c, t, want, s, key='target'):
    i, cid, r, la, comps = want
    c.need(set(t) == {'id', 'cid', 'la', 'r', 'pdf'}, key, lambda: 'fields %r' % list(t))
    whole(c, t['id'], i, key + '.id', s)
    whole(c, t['cid'], cid, key + '.cid', s)
    c.need(t['la'] == la, key + '.la', lambda: '%r printed as %r' % (la, t['la']))
    number(c, t['r'], r, 6, key + '.r', s)
    mixture(c, t['pdf'], comps, key + '.pdf', s)
    c.count('targets')


def tracker(c, s, truth):
    v = parse(c, s, 'tracker')
    c.need(set(v) == {'targets'} and isinstance(v['targets'], list), 'tracker', lambda: s[:500])
    c.need(len(v['targets']) == len(truth), 'tracker', lambda: '%d targets printed, %d tracked' % (len(v['targets']), len(truth)))
    for a, b in zip(v['targets'], truth):
        target(c, a, b, s)
    return v


def report(c, g, x, P, s):
    c.need(set(g) == {'type', 'x', 'P'} and g['type'] == 'GR', 'report', lambda: 'fields %r' % g)
    matrix(c, g['x'], x, 2, 1, 'report.x', s)
    matrix(c, g['P'], P, 2, 2, 'report.P', s)


def num(c):
    return c.r.choice([c.r.gauss(0, 1), c.r.uniform(-180, 180), c.r.uniform(-1e6, 1e6), c.logu(1e-290, 1e290), -c.logu(1e-30, 1e30), 0.0, 1.0, 0.1, 1 / 3, 58.3887657, 123456789.0, 1e5, 1e6, 99999.95, 1e-5, float(c.r.randint(-9, 9)),
                       1.7e308, 2.3e-308])


def nums(c, n):
    return [num(c) for _ in range(n)]


def F(a):
    return np.asarray(a, dtype=float).flatten(order='F').tolist()


def values(c):
    """Every printable kind of value with awkward numbers."""
    big = lambda: c.r.choice([0, 1, 9, 10, 4294967295, c.r.randrange(2 ** 32)])
    for _ in range(30):
        x4, P4, w = nums(c, 4), nums(c, 16), num(c)
        g = lmb.Gaussian(np.array(x4), np.array(P4).reshape((4, 4), order='F'), w)
        for s in (repr(g), str(g), ob.text(g)):
            gaussian(c, parse(c, s, 'gaussian'), (x4, P4, w), 'gaussian', s)
        i, cid = big(), big()
        t = ob.summary(x4, P4, w, i, cid)
        for s in (repr(t), ob.text(t)):
            v = parse(c, s, 'summary')
            c.need(set(v) == {'type', 'id', 'w', 'x', 'P'} and v['type'] == 'T', 'summary', lambda: s)
            whole(c, v['id'], i, 'summary.id', s)
            number(c, v['w'], w, 6, 'summary.w', s)
            matrix(c, v['x'], x4, 4, 1, 'summary.x', s)
            matrix(c, v['P'], P4, 4, 4, 'summary.P', s)
        x2, P2 = nums(c, 2), nums(c, 4)
        z = lmb.GaussianReport(np.array(x2), np.array(P2).reshape((2, 2), order='F'), w)
        for s in (repr(z), ob.text(z)):
            report(c, parse(c, s, 'report'), x2, P2, s)
        n = c.r.randint(0, 5)
        zs = [lmb.GaussianReport(np.array(nums(c, 2)), np.array(nums(c, 4)).reshape(2, 2), 1.0) for _ in range(n)]
        s = ob.text(zs)
        v = parse(c, s, 'scan')
        c.need(isinstance(v, list) and len(v) == n, 'scan', lambda: s[:500])
        for a, b in zip(v, zs):
            report(c, a, F(b.x), F(b.P), s)
        K = nums(c, 8)
        b = lmb.BBox(np.array(K).reshape((2, 4), order='F'))
        for s in (repr(b), ob.text(b)):
            v = parse(c, s, 'box')
            c.need(set(v) == {'type', 'c'} and v['type'] == 'BBox', 'box', lambda: s)
            matrix(c, v['c'], K, 2, 4, 'box', s)
        a = lmb.AABBox(*nums(c, 4))
        # not an object of the trace: the numbers, in its own bracket notation
        for s in (repr(a), ob.text(a)):
            m = re.fullmatch(r'AABBox(\[\[[^][]*\], \[[^][]*\]\])', s)
            c.need(m, 'aabbox', lambda: s)
            v = parse(c, m.group(1), 'aabbox')
            for d in range(2):
                number(c, v[d][0], a.min[d], 6, 'aabbox', s)
                number(c, v[d][1], a.max[d], 6, 'aabbox', s)
        i, cid, la, n = big(), big(), c.r.choice('uci'), c.r.choice([0, 1, 1, 2, 7])
        comps = [(nums(c, 4), nums(c, 16), num(c)) for _ in range(n)]
        r = c.r.random()
        s, s2 = ob.target_text([r], i, cid, la, comps)
        target(c, parse(c, s, 'target'), (i, cid, r, la, comps), s)
        mixture(c, parse(c, s2, 'mixture'), comps, 'mixture', s2)
    o = np.array([c.r.uniform(-70, 70), c.r.uniform(-170, 170)])
    zs = [lmb.GaussianReport(cf.ne2ll(c.n.randn(2) * 30, o), c.spd(0.1, 5), 1.0) for _ in range(c.r.randint(0, 3))]
    ts = [(c.r.random(), big(), F(cf.ne2ll(c.n.randn(2) * 30, o)) + [1.0, 0.5], F(c.spd(0.1, 5, 4))) for _ in range(c.r.randint(0 if zs else 1, 3))]
    s, r, l = ob.cluster_text(zs, ts, o)
    v = parse(c, s, 'cluster')
    c.need(v.get('type') == 'CL' and len(v['R']) == len(zs) and len(v['T']) == len(ts), 'cluster', lambda: s[:800])
    for a, b in zip(v['R'], r):
        report(c, a, b[0], b[1], s)
    for a, b in zip(v['T'], l):
        target(c, a, b, s)
    particles(c, None)
    c.need(ob.stream_state(lmb.Tracker(), lmb.BBox(), ob.summary([0.0] * 4, [0.0] * 16, 1.0, 0, 0)), 'stream', 'printing leaves other number formats behind')
    c.mark(x4, K)


def particles(c, at):
    n = c.r.randint(1, 24)
    w = np.array([c.r.random() for _ in range(n)])
    w = (w / w.sum()).tolist()
    x = [nums(c, 4) if at is None else (np.array(at) + c.n.randn(4)).tolist() for _ in range(n)]
    i, r = c.r.randrange(2 ** 32), c.r.random()
    s, s2, N = ob.pf_text(w, x, i, r)
    w += [0.0] * (N - n)
    x += [[0.0] * 4] * (N - n)
    v = parse(c, s2, 'particles')
    whole(c, v['id'], i, 'particles.id', s2)
    for v in (parse(c, s, 'particles'), v['pdf']):
        c.need(set(v) == {'type', 'w', 'x'} and v['type'] == 'PF', 'particles', lambda: s[:500])
        matrix(c, v['w'], w, 1, N, 'particles.w', s)
        matrix(c, v['x'], np.array(x).T.flatten(order='F').tolist(), 4, N, 'particles.x', s)
    return json.loads(s2), np.array(w), np.array(x)


def mean(comps):
    return sum((w * np.array(x) for x, _, w in comps), np.zeros(4))


def history(c):
    """The trace of a random history, as the example program writes it."""
    la, lo = c.r.uniform(-70, 70), c.r.uniform(-178, 178)
    o = np.array([la, lo])
    view = c.p(0.3 if c.thorough else 0.15)
    story = ob.Story(c.r.randrange(2 ** 62), la, lo, c.r.choice([3, 8, 14, 20]), True)
    t = lmb.Tracker()
    for k, v in zip(['w_lim', 'r_lim', 'nhyp_max', 'rB_max', 'nstd', 'cw_lim', 'cov_lim', 'tscale'], story.params()):
        setattr(t.params, k, v)
    lines, truths = [], []
    for k in range(len(story)):
        op = story.op(k)
        zs, time = [], float(k)
        if op[0] == 'add':
            story.add(k, t)
        elif op[0] == 'cv':
            t.predict(lmb.CV(op[1], op[2]), op[3], op[4])
        elif op[0] == 'nm':
            t.predict(lmb.NM(op[1], np.array(op[2]).reshape(4, 4)), op[3], op[4])
        else:
            s = lmb.PositionSensor()
            s.fov.corners = np.array(op[1]).reshape(4, 2).T
            s.lambdaB, s.pD, s.pv = op[2], op[3], np.array(op[4]).reshape(2, 2).T
            zs = t.correct(s, [lmb.GaussianReport(np.array(x), np.array(P).reshape(2, 2).T, kap) for x, P, kap in op[5]], op[6])
            time = op[6]
        truth = ob.targets(t)
        c.need(ob.text(t) == ob.text(t), 'tracker', 'printing twice differs')
        tracker(c, ob.text(t), truth)
        for q in t.get_targets():
            v = parse(c, repr(q), 'summary')
            whole(c, v['id'], q.id, 'summary.id', repr(q))
            number(c, v['w'], q.r, 6, 'summary.w', repr(q))
            matrix(c, v['P'], F(q.P), 4, 4, 'summary.P', repr(q))
        scan = ob.text(zs)
        for a, b in zip(parse(c, scan, 'scan'), zs):
            report(c, a, F(b.x), F(b.P), scan)
        local, lt = ob.local_text(t, o)
        tracker(c, local, lt)
        c.need(ob.targets(t) == truth, 'tracker', 'printing changed the tracker')
        lines.append('{"t":%.6g,"scan":%s,"post":%s}' % (time, scan, local))
        truths.append((time, lt))
        parse(c, lines[-1], 'line')
        c.count('lines')
        c.mark([(q[0], round(q[2], 8)) for q in truth])
    if view:
        viewer(c, lines, truths)


def quad(ellipse, cov, at):
    """Half axes of the drawn outline against the covariance: largest error in extent over all directions, relative to the largest."""
    M = ellipse.get_patch_transform().get_matrix()
    A, b = M[:2, :2], M[:2, 2]
    a = np.linspace(0, np.pi, 37)
    u = np.stack([np.cos(a), np.sin(a)])
    have = np.sqrt(((A.T @ u) ** 2).sum(axis=0))
    want = 2 * np.sqrt(np.maximum(((cov @ u) * u).sum(axis=0), 0))
    return np.abs(have - want).max() / max(want.max(), 1e-12), np.abs(b - at).max()


def viewer(c, lines, truths):
    path = os.path.join(SCRATCH, 'trace-%d.log' % os.getpid())
    png = path + '.png'
    open(path, 'w').write(''.join(l + '\n' for l in lines))
    plt.close('all')
    fig = plt.figure(figsize=(4, 3), dpi=30)
    try:
        if c.p(0.12):
            plot_results.main(path, '--output', png)
            c.need(os.path.getsize(png) > 1000, 'viewer', 'no picture')
            c.count('pictures')
        else:
            plot_results.draw(plot_results.parse_args(path))
        axes = fig.axes
        c.need(len(axes) == len(lines), 'viewer', '%d plots for %d lines' % (len(axes), len(lines)))
        hist = {}
        for ax, (time, ts) in zip(axes, truths):
            c.need(float(ax.get_title()) == float('%.6g' % time), 'viewer.title', lambda: '%s for time %r' % (ax.get_title(), time))
            for i, _, r, _, comps in ts:
                hist.setdefault(i, []).append(mean(comps))
            ls = ax.get_lines()
            c.need(len(ls) == len(ts), 'viewer.traces', '%d traces for %d targets' % (len(ls), len(ts)))
            for l, (i, cid, r, _, comps) in zip(ls, ts):
                got, want = np.array(l.get_xydata()), np.array([m[:2] for m in hist[i]])
                c.need(got.shape == want.shape and np.abs(got - want).max() <= 2e-5 * (np.abs(want).max() + 1), 'viewer.traces', lambda: 'target %d: %r, not %r' % (i, got, want))
                c.count('traces')
            tx = [x.get_text() for x in ax.texts]
            c.need(all(abs(float(a) - q[2]) <= 0.00501 for a, q in zip(tx, ts)) and len(tx) == len(ts), 'viewer.existence', lambda: '%r for %r' % (tx, [q[2] for q in ts]))
            es = [a for a in ax.get_children() if isinstance(a, matplotlib.patches.Ellipse)]
            want = [(x, P, w) for q in ts for x, P, w in q[4]]
            c.need(len(es) == 2 * len(want), 'viewer.ellipses', '%d ellipses for %d components' % (len(es), len(want)))
            for n, (x, P, w) in enumerate(want):
                for e in es[2 * n:2 * n + 2]:
                    rel, off = quad(e, np.array(P).reshape(4, 4)[:2, :2], np.array(x[:2]))
                    c.need(rel < 1e-3 and off <= 1e-9 * (1 + np.abs(x[:2]).max()), 'viewer.ellipses', lambda: 'ellipse of %r is off by %g at %g' % (P, rel, off))
                    c.count('ellipses')
        c.count('views')
        c.maxi('lines_viewed', len(lines))
    finally:
        plt.close('all')
        for f in (path, png):
            if os.path.exists(f):
                os.unlink(f)


def particle_view(c):
    """The viewer's reading of a particle density."""
    lines, pts = [], []
    for k in range(c.r.randint(1, 3)):
        v, w, x = particles(c, [3.0, 4.0, 1.0, 1.0])
        v.update(id=5, cid=1, la='c', r=0.5)
        lines.append('{"t":%d,"scan":[],"post":{"targets":[%s]}}' % (k, json.dumps(v)))
        pts.append((w, x))
    p = clmb.PF(v['pdf'])
    m = (w[:, None] * x).sum(axis=0)
    c.need(np.allclose(np.squeeze(p.mean()), m, rtol=1e-10, atol=1e-12), 'viewer.particles', lambda: 'mean %r, not %r' % (p.mean(), m))
    f = 1 - (w * w).sum()
    if f > 1e-6:
        C = ((x - m).T * w) @ (x - m) / f
        c.need(np.allclose(p.cov(), C, rtol=1e-8, atol=1e-10), 'viewer.particles', 'covariance')
        path = os.path.join(SCRATCH, 'trace-%d.log' % os.getpid())
        open(path, 'w').write('\n'.join(lines) + '\n')
        plt.close('all')
        fig = plt.figure(figsize=(3, 2), dpi=30)
        plot_results.draw(plot_results.parse_args(path))
        got = fig.axes[-1].get_lines()[0].get_xydata()
        want = np.array([(w_[:, None] * x_).sum(axis=0)[:2] for w_, x_ in pts])
        c.need(got.shape == want.shape and np.allclose(got, want, atol=1e-9), 'viewer.particles', 'trace')
        plt.close('all')
        os.unlink(path)
    c.count('particle_views')


def case(c):
    if c.cas % 10 == 0:
        values(c)
        particle_view(c)
    else:
        history(c)


main(case)
