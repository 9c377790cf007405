"""P03: what is drawn is the true shape at the true place. Outlines are judged as drawn (the artists' paths), not as constructed."""
import types, warnings
import numpy as np
warnings.simplefilter('ignore')
from common import main
import lmb
from lmb import cf
from lmb import plot as lp
import observer as ob
import matplotlib
matplotlib.use('Agg')
import matplotlib.pyplot as plt
from matplotlib.patches import Patch
import clmb


def outline(a):
    """Points along the outline of a patch, in data coordinates of its axes (before any axes scaling)."""
    p = a.get_path().transformed(a.get_patch_transform())
    pts = []
    for b, code in p.iter_bezier():
        pts.append(b(np.linspace(0, 1, 9)) if code != matplotlib.path.Path.CLOSEPOLY else b(np.array([0.0, 1.0])))
    return np.concatenate(pts)


def contour(c, a, cov, at, n, key):
    """The outline of a is the n-sigma contour of cov around at."""
    c.need(a.axes is plt.gca() and a in plt.gca().get_children(), key, 'not on the axes')
    t = a.get_transform() - a.axes.transData
    c.need(np.allclose(t.transform([[0, 0], [1, 0], [0, 1]]), a.get_patch_transform().transform([[0, 0], [1, 0], [0, 1]]), rtol=1e-6, atol=1e-6 * (1 + np.abs(at).max())), key, lambda: 'not in data coordinates: %r at %r: %r' % (cov, at, a.get_patch_transform().get_matrix()))
    p = outline(a) - at
    s = n * np.sqrt(max(np.trace(cov), 0))
    eps = 1e-9 * (s + np.abs(at).max()) + 1e-300
    ang = np.linspace(0, 2 * np.pi, 73)
    u = np.stack([np.cos(ang), np.sin(ang)])
    want = n * np.sqrt(np.maximum((u * (cov @ u)).sum(axis=0), 0))
    have = (p @ u).max(axis=0)
    big = max(want.max(), 1e-300)
    # a drawn curve of line and spline pieces follows the contour within a thousandth of its largest extent, within sqrt(rounding) for a flat one
    err = np.abs(have - want).max()
    c.need(err <= 2e-3 * big + eps, key, lambda: 'extent off by %g of %g: cov %r at %r n=%r' % (err, big, cov, at, n))
    ev = np.linalg.eigvalsh(cov)
    if ev[0] > 1e-4 * ev[1]:
        q = np.sqrt((p @ np.linalg.inv(cov) * p).sum(axis=1)) / n
        c.need(np.abs(q - 1).max() < 4e-3, key, lambda: 'outline at %g to %g sigma: cov %r n=%r' % (q.min() * n, q.max() * n, cov, n))
        d = np.sort(np.arctan2(p[:, 1], p[:, 0]))
        c.count('contours')
    c.maxi('extent_error', float(err / big))
    c.count('ellipses')


def cov2(c):
    k = c.r.randint(0, 9)
    if k == 0:
        v = c.n.randn(2) * c.logu(1e-3, 1e3)
        return np.outer(v, v)                                   # a line
    if k == 1:
        return np.eye(2) * c.logu(1e-6, 1e6)                    # a circle
    if k == 2:
        return np.diag([c.logu(1e-4, 1e4), c.logu(1e-4, 1e4)])
    if k == 3:
        return np.diag([c.logu(1e-4, 1e4), 0.0][::c.r.choice([1, -1])])
    s = c.logu(1e-3, 1e3)
    return c.spd(s, s * c.r.choice([1.5, 10, 100]))


def ell(c):
    cov, at, n = cov2(c), c.n.randn(2) * c.r.choice([0, 1, 1e3, 1e5]), c.r.choice([2, 1, 0.5, 3.7, c.r.uniform(0.1, 8)])
    flip = cov[::-1, ::-1]
    a = lp.cov_ellipse(cov, at, n) if n != 2 or c.p(0.5) else lp.cov_ellipse(cov, at)
    contour(c, a, flip, at[::-1], n, 'ellipse')                     # north up, east to the right
    a = clmb.plot_cov_ellipse(cov, at, n) if n != 2 or c.p(0.5) else clmb.plot_cov_ellipse(cov, at)
    contour(c, a, cov, at, n, 'viewer-ellipse')                     # first coordinate to the right
    for mod, f in ((lp, lp.calc_cov_ellipse), (clmb, clmb.cov_ellipse)):
        r1, r2, th = f(cov, n)
        e = np.array([np.cos(th), np.sin(th)])
        o = np.array([-e[1], e[0]])
        M = r1 ** 2 * np.outer(e, e) + r2 ** 2 * np.outer(o, o)
        c.need(r1 >= r2 >= 0 and np.abs(M - n * n * cov).max() <= 1e-9 * n * n * np.abs(cov).max(), 'axes', lambda: 'axes %r %r at %r for %r' % (r1, r2, th, cov))
        v, w = mod.eigsorted(cov)
        c.need(v[0] >= v[1] and np.allclose(cov @ w, w * v, rtol=0, atol=1e-9 * (np.abs(cov).max() + 1e-300)), 'axes', 'eigsorted')
    c.mark(cov.tolist(), n)


def corners_of(a):
    p = a.get_path().transformed(a.get_patch_transform()).vertices
    return p[:4]


def boxes(c):
    o = np.array([c.r.uniform(-70, 70), c.r.uniform(-175, 175)])
    z = lmb.GaussianReport(cf.ne2ll(c.n.randn(2) * 100, o), cov2(c), 1.0)
    b = z.nebbox(o, c.r.choice([1.0, 2.0, 3.0]))
    k0 = len(plt.gca().patches)
    if c.p(0.5):
        lp.bbox(b, c.r.randint(0, 5), alpha=0.5)
    else:
        lp.bbox(np.array(b.corners))
    a = plt.gca().patches[-1]
    c.need(len(plt.gca().patches) == k0 + 1, 'box', 'not one patch')
    c.need(np.array_equal(corners_of(a), np.array(b.corners).T[:, ::-1]), 'box', lambda: '%r drawn as %r' % (b, corners_of(a)))
    x = np.sort(c.n.randn(2) * 50)
    y = np.sort(c.n.randn(2) * 50)
    obj = types.SimpleNamespace(id=c.r.randint(0, 100), bbox=lambda: [x[0], x[1], y[0], y[1]])
    clmb.plot_bbox(obj, cseed=c.r.randint(0, 9))
    p = corners_of(plt.gca().patches[-1])
    c.need(np.allclose(p.min(axis=0), [x[0], y[0]], rtol=1e-12, atol=1e-12) and np.allclose(p.max(axis=0), [x[1], y[1]], rtol=1e-12, atol=1e-12), 'viewer-box', lambda: '%r drawn as %r' % ((x, y), p))
    c.count('boxes', 2)


def ellipses_on(ax):
    return [a for a in ax.get_children() if isinstance(a, Patch) and isinstance(a, matplotlib.patches.Ellipse)]


def line(ax, k):
    return np.array(ax.get_lines()[k].get_xydata(), dtype=float)


def scans(c):
    o = np.array([c.r.uniform(-70, 70), c.r.uniform(-175, 175)])
    zs = [lmb.GaussianReport(cf.ne2ll(c.n.randn(2) * 100, o), cov2(c), 1.0) for _ in range(c.r.randint(0, 6))]
    for k, z in enumerate(zs):
        ob.set_report(z, 0.1, c.r.randint(0, 500))
    plt.clf()
    ax = plt.gca()
    opt = dict(covellipse=c.p(0.7), draw_bbox=c.p(0.5), clustercolor=c.p(0.5), show_id=c.p(0.3), show_cid=c.p(0.3), c=c.r.randint(0, 3))
    lp.scan(zs, o, **opt)
    c.need(len(ax.get_lines()) == len(zs), 'scan', '%d marks for %d reports' % (len(ax.get_lines()), len(zs)))
    es = ellipses_on(ax)
    c.need(len(es) == (len(zs) if opt['covellipse'] else 0), 'scan', 'ellipses')
    polys = [a for a in ax.patches if not isinstance(a, matplotlib.patches.Ellipse)]
    c.need(len(polys) == (len(zs) if opt['draw_bbox'] else 0), 'scan', 'boxes')
    for k, z in enumerate(zs):
        ne = np.array(ob.cf('ll2ne', list(z.x), list(o)))
        m = line(ax, k)
        c.need(m.shape == (1, 2) and np.array_equal(m[0], ne[::-1]), 'scan', lambda: 'report at %r drawn at %r' % (ne, m))
        if es:
            contour(c, es[k], np.array(z.P)[::-1, ::-1], ne[::-1], 2, 'scan-ellipse')
        if polys:
            c.need(np.array_equal(corners_of(polys[k]), np.array(ob.nebbox(z, o, 2.0)).reshape(4, 2)[:, ::-1]), 'scan-box', lambda: 'box of %r is drawn as %r' % (z, corners_of(polys[k])))
    tx = [t.get_text() for t in ax.texts]
    want = []
    for k, z in enumerate(zs):
        want += [str(k)] * opt['show_id'] + [str(z.cid)] * opt['show_cid']
    c.need(tx == want, 'scan', lambda: 'labels %r, not %r' % (tx, want))
    c.count('reports', len(zs))
    # the older viewer, in its own axes
    plt.clf()
    ax = plt.gca()
    rs = [types.SimpleNamespace(z=c.n.randn(2) * 10, R=cov2(c)) for _ in range(c.r.randint(0, 5))]
    clmb.plot_scan(types.SimpleNamespace(reports=rs))
    d = line(ax, 0)
    c.need(d.shape[0] == len(rs) and all(np.array_equal(a, r.z) for a, r in zip(d, rs)), 'viewer-scan', 'positions')
    for e, r in zip(ellipses_on(ax), rs):
        contour(c, e, r.R, r.z, 2, 'viewer-scan-ellipse')


def mkhistory(c, o, ids=None, empty=0.1):
    """What an application keeps: targets come and go, each entry the summaries after one scan."""
    hist = []
    alive = {}
    nxt = 0
    for k in range(c.r.randint(0, 8)):
        if c.p(0.6) or not alive:
            for _ in range(c.r.randint(0, 3)):
                alive[nxt] = np.append(c.n.randn(2) * 200, c.n.randn(2))
                nxt += c.r.randint(1, 40)
        for i in list(alive):
            if c.p(0.12):
                del alive[i]
            else:
                alive[i] = alive[i] + np.append(alive[i][2:], [0, 0])
        ts = []
        for i, x in alive.items():
            P = np.zeros((4, 4))
            P[:2, :2] = cov2(c)
            P[2:, 2:] = np.eye(2)
            ll = np.append(cf.ne2ll(x[:2], o), x[2:])
            ts.append(ob.summary(ll.tolist(), P.flatten(order='F').tolist(), c.r.choice([c.r.random(), 0.3, 1.0, 0.29999]), i, c.r.randint(0, 60)))
        c.r.shuffle(ts)
        if c.p(empty):
            ts = []
        h = dict(targets=ts, reports=[])
        if c.p(0.4):
            h['fov'] = lmb.BBox(lmb.AABBox(*(cf.ne2ll(np.array([-300.0, -200.0]), o).tolist() + cf.ne2ll(np.array([300.0, 100.0]), o).tolist())))
        elif c.p(0.3):
            h['fov'] = None
        hist.append(h)
    return hist


def check_tracks(c, ax, hist, o, min_r, covellipse, draw_bbox, l0=0, p0=0, e0=0, key='tracks'):
    """Lines from l0 on, patches from p0 on: each target of the last entry with its whole past."""
    lines, polys, es = ax.get_lines()[l0:], [a for a in ax.patches if not isinstance(a, matplotlib.patches.Ellipse)][p0:], ellipses_on(ax)[e0:]
    if hist and hist[-1].get('fov'):
        f = polys[0]
        c.need(np.array_equal(corners_of(f), np.array(ob.nebbox(hist[-1]['fov'], o)).reshape(4, 2)[:, ::-1]), key + '-fov', 'the field of view is drawn elsewhere')
        polys = polys[1:]
    ts = [t for t in hist[-1]['targets'] if t.r >= min_r] if hist else []
    c.need(len(lines) == 2 * len(ts), key, '%d lines for %d targets' % (len(lines), len(ts)))
    c.need(len(es) == (2 * len(ts) if covellipse else 0), key, '%d ellipses for %d targets' % (len(es), len(ts)))
    c.need(len(polys) == (len(ts) if draw_bbox else 0), key, '%d boxes for %d targets' % (len(polys), len(ts)))
    for k, t in enumerate(ts):
        want = np.array([ob.cf('ll2ne', list(q.x[:2]), list(o))[::-1] for h in hist for q in h['targets'] if q.id == t.id])
        got = np.array(lines[2 * k].get_xydata(), dtype=float)
        c.need(got.shape == want.shape and np.array_equal(got, want), key, lambda: 'track of %d drawn through %r, not %r' % (t.id, got, want))
        c.need(np.array_equal(np.array(lines[2 * k + 1].get_xydata(), dtype=float), want[-1:]), key, 'end mark')
        if es:
            for e in es[2 * k:2 * k + 2]:
                contour(c, e, np.array(t.P)[:2, :2][::-1, ::-1], want[-1], 2, key + '-ellipse')
        if polys:
            c.need(np.array_equal(corners_of(polys[k]), np.array(ob.nebbox(t, o, 2.0)).reshape(4, 2)[:, ::-1]), key + '-box', lambda: 'box of %r drawn as %r' % (t, corners_of(polys[k])))
        c.count('tracks')
        c.count('track_points', len(want))
    return ts


def tracks(c):
    o = np.array([c.r.uniform(-70, 70), c.r.uniform(-175, 175)])
    hist = mkhistory(c, o)
    plt.clf()
    ax = plt.gca()
    opt = dict(covellipse=c.p(0.7), draw_bbox=c.p(0.5), clustercolor=c.p(0.5), min_r=c.r.choice([0, 0.3, 0.9]), r_values=c.p(0.3), show_id=c.p(0.3), show_cid=c.p(0.3), velocity=c.p(0.3), c=c.r.randint(0, 3))
    lp.tracks(hist, o, **opt)
    ts = check_tracks(c, ax, hist, o, opt['min_r'], opt['covellipse'], opt['draw_bbox'])
    want = []
    for t in ts:
        want += ['%.2f' % t.r] * opt['r_values'] + [str(t.id)] * opt['show_id'] + [str(t.cid)] * opt['show_cid']
    c.need([t.get_text() for t in ax.texts] == want, 'labels', lambda: '%r, not %r' % ([t.get_text() for t in ax.texts], want))
    c.mark(len(ts), len(hist), want)


def grids(c):
    plt.clf()
    n, e = c.r.randint(1, 9), c.r.randint(1, 9)
    g = c.n.rand(n, e) * c.r.choice([0, 1, 1e-6, 1e3])
    keep = g.copy()
    ext = (-5.0, 7.0, -20.0, 30.0)
    ax = plt.gca()
    lp.phd(g, extent=ext)
    im = ax.get_images()[0]
    c.need(np.array_equal(np.asarray(im.get_array()), keep) and np.array_equal(g, keep), 'grid', 'another grid is drawn')
    c.need(im.origin == 'lower' and tuple(im.get_extent()) == ext, 'grid', 'first row is not the southern edge, or the extent is lost')
    c.need(im.get_clim() == (0, keep.max()) or keep.max() == 0, 'grid', lambda: 'colours span %r' % (im.get_clim(),))
    c.count('grids')


def traces(c):
    """The trace viewer's targets."""
    plt.clf()
    ax = plt.gca()
    ts = []
    for _ in range(c.r.randint(1, 3)):
        i = c.r.randint(0, 100)
        t = clmb.Target(dict(id=i))
        H = []
        for k in range(c.r.randint(1, 6)):
            n = c.r.choice([1, 1, 2, 4])
            w = c.n.rand(n) + 0.01
            w /= w.sum()
            comps = [(float(a), (c.n.randn(4) * 20), cov2(c)) for a in w]
            def P4(P):
                Q = np.eye(4)
                Q[:2, :2] = P
                return Q
            r = c.r.random()
            t.add_state(dict(cid=k, r=r, la='c', pdf=dict(type='GM', c=[dict(w=a, x=x.reshape(4, 1).tolist(), P=P4(P).tolist()) for a, x, P in comps])))
            H.append((sum(a * x for a, x, _ in comps), comps, r))
        ts.append((t, H))
    back = c.r.choice([None, None, 1, 3])
    vel = c.p(0.4)
    clmb.plot_traces([t for t, _ in ts], max_back=back, r_values=True, track_id=True, velocity=vel)
    es, ls, tx = ellipses_on(ax), list(ax.get_lines()), [x.get_text() for x in ax.texts]
    for t, H in ts:
        l = np.array(ls.pop(0).get_xydata(), dtype=float)
        want = np.array([m[:2] for m, _, _ in (H[-back:] if back else H)])
        c.need(l.shape == want.shape and np.allclose(l, want, rtol=1e-9, atol=1e-9), 'viewer-trace', lambda: '%r, not %r' % (l, want))
        for a, x, P in H[-1][1]:
            for _ in range(2):
                contour(c, es.pop(0), P, x[:2], 2, 'viewer-trace-ellipse')
        c.need(tx[:2] == ['%.2f' % H[-1][2], str(t.id)], 'viewer-trace', lambda: 'labels %r' % tx[:2])
        tx = tx[2:]
        if vel:
            l = np.array(ls.pop(0).get_xydata(), dtype=float)
            m = H[-1][0]
            v = m[2:] * min(1, 15 / np.linalg.norm(m[2:]))
            c.need(np.allclose(l, [m[:2], m[:2] + v], rtol=1e-9, atol=1e-9), 'viewer-velocity', lambda: '%r for %r' % (l, m))
        c.count('traces')
    c.need(not es and not ls and not tx, 'viewer-trace', 'more is drawn than there is')


def case(c):
    plt.close('all')
    plt.figure(figsize=(3, 2), dpi=30)
    for _ in range(6):
        ell(c)
    plt.clf()
    boxes(c)
    scans(c)
    tracks(c)
    grids(c)
    traces(c)
    plt.close('all')


if __name__ == '__main__':
    main(case)
