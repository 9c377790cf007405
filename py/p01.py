"""P01: what Python sees of the tracker is what the C++ objects hold."""
import copy, gc, pickle, threading
import numpy as np
from common import main, same, bits
import lmb
from lmb import cf
import observer as ob

PN = ['w_lim', 'r_lim', 'nhyp_max', 'rB_max', 'nstd', 'cw_lim', 'cov_lim', 'tscale']


def fresh(f, *a, **k):
    """Call in a thread of its own, whose C++ random generator is freshly seeded."""
    out = {}

    def run():
        try:
            out['v'] = f(*a, **k)
        except BaseException as e:
            out['e'] = e
    t = threading.Thread(target=run)
    t.start()
    t.join()
    if 'e' in out:
        raise out['e']
    return out['v']


def num(c):
    """Any finite double, often an awkward one."""
    return c.r.choice([c.r.gauss(0, 1), c.r.uniform(-1e3, 1e3), c.logu(1e-300, 1e300), -c.logu(1e-9, 1e9), 0.0, -0.0, 5e-324, 0.1, 1 / 3, float(c.r.randint(-5, 5)), 1.7976931348623157e308])


def nums(c, *shape):
    return np.array([num(c) for _ in range(int(np.prod(shape)))]).reshape(shape)


def F(a):
    return np.asarray(a, dtype=float).flatten(order='F').tolist()


def call(f, *a):
    """With positional arguments in whatever form numpy offers them."""
    return f(*a)


def shape(c, a):
    """The same matrix as a differently laid out numpy array."""
    k = c.r.randint(0, 3)
    if k == 0:
        return np.asfortranarray(a)
    if k == 1:
        b = np.full(tuple(2 * s for s in a.shape), np.nan)
        b[tuple(slice(None, None, 2) for _ in a.shape)] = a
        return b[tuple(slice(None, None, 2) for _ in a.shape)]
    if k == 2:
        return a.tolist()
    return a


def clones(c, o):
    yield 'copy', copy.copy(o)
    yield 'deepcopy', copy.deepcopy(o)
    for p in range(2, pickle.HIGHEST_PROTOCOL + 1):
        yield 'pickle%d' % p, pickle.loads(pickle.dumps(o, p))
    yield 'nested', pickle.loads(pickle.dumps({'a': [o, o]}))['a'][1]


def check_clones(c, o, name):
    r = ob.raw(o)
    for how, q in clones(c, o):
        c.count('clones')
        c.need(type(q) is type(o), 'pickle:' + name, 'another type')
        c.need(same(ob.raw(q), r), 'pickle:' + name, lambda: '%s of %s: %r became %r' % (how, name, r, ob.raw(q)))
        c.need(repr(q) == repr(o), 'pickle:' + name, lambda: '%s: text %s became %s' % (how, o, q))
    c.need(same(ob.raw(o), r), 'pickle:' + name, 'pickling changed the object')


def fields(c, o, raw0, table, name):
    """Assign every field in random order; after each, all fields read back and the C++ object agrees."""
    state = dict(table)
    order = [k for k in state] * 2
    c.r.shuffle(order)
    for k in order:
        v = state[k]
        new = nums(c, *np.shape(v)) if np.ndim(v) else num(c)
        setattr(o, k, shape(c, new) if np.ndim(v) else new)
        state[k] = new
        for q, w in state.items():
            got = getattr(o, q)
            c.need(same(np.asarray(got, dtype=float).flatten(order='F'), np.asarray(w, dtype=float).flatten(order='F')), 'field:%s.%s' % (name, q), lambda: 'after assigning %s: %s is %r, not %r' % (k, q, got, w))
            if np.ndim(w):
                c.need(np.shape(got) == np.shape(w), 'field:%s.%s' % (name, q), 'shape %s' % (np.shape(got),))
        want = raw0(state)
        c.need(same(ob.raw(o), want), 'field:%s.%s' % (name, k), lambda: 'after assigning %s the C++ object holds %r, not %r' % (k, ob.raw(o), want))
        c.count('assignments')
        # writing into the array handed out is either refused or reaches the object
        if np.ndim(v) and name != 'AABBox' and c.p(0.5):
            i = tuple(c.r.randrange(n) for n in np.shape(v))
            x = num(c)
            try:
                getattr(o, k)[i] = x
                state[k] = state[k].copy()
                state[k][i] = x
            except ValueError:
                c.count('read_only')
            c.need(same(ob.raw(o), raw0(state)), 'field:%s.%s' % (name, k), 'writing one element is lost')


def values(c):
    # parameters
    p = lmb.Params()
    st = {k: v for k, v in zip(PN, ob.raw(p))}
    for k in PN:
        c.need(same(getattr(p, k), st[k]), 'field:Params.' + k, 'default %r' % getattr(p, k))
    fields(c, p, lambda s: [float(s[k]) for k in PN], st, 'Params')
    t = lmb.Tracker(p)
    c.need(same(ob.params(t), ob.raw(p)), 'params', 'construction: %r' % ob.params(t))
    p.r_lim = 0.123
    c.need(not same(ob.params(t), ob.raw(p)), 'params', 'the tracker shares the caller\'s parameters')
    keep = ob.params(t)
    t.params.cov_lim = 77.0
    keep[6] = 77.0
    c.need(same(ob.params(t), keep), 'params', 'assigning one parameter of a tracker')
    t.params = p
    c.need(same(ob.params(t), ob.raw(p)) and same(ob.raw(t.params), ob.raw(p)), 'params', 'assigning all parameters of a tracker')
    q = t.params
    del t
    gc.collect()
    c.need(same(ob.raw(q), ob.raw(p)), 'params', 'parameters of a tracker that is gone')
    c.need(same(ob.params(lmb.Tracker()), ob.raw(lmb.Params())), 'params', 'defaults')
    # models
    m = lmb.CV()
    c.need(same([m.pS, m.q], [1.0, 1.0]) and same(ob.raw(m), [1.0, 1.0]), 'field:CV', 'defaults')
    a, b = num(c), num(c)
    for m in (lmb.CV(a, b), lmb.CV(pS=a, q=b), lmb.CV(q=b, pS=a)):
        c.need(same(ob.raw(m), [a, b]), 'field:CV', lambda: 'CV(%r, %r) holds %r' % (a, b, ob.raw(m)))
    c.need(same(ob.raw(lmb.CV(q=b)), [1.0, b]) and same(ob.raw(lmb.CV(a)), [a, 1.0]), 'field:CV', 'defaults with one argument')
    fields(c, m, lambda s: [s['pS'], s['q']], dict(pS=a, q=b), 'CV')
    Q = nums(c, 4, 4)
    m = lmb.NM(a, shape(c, Q))
    c.need(same(ob.raw(m), F(Q) + [a]), 'field:NM', 'construction')
    fields(c, m, lambda s: F(s['Q']) + [s['pS']], dict(pS=a, Q=Q), 'NM')
    m = lmb.NM()
    c.need(same(m.pS, 1.0) and not np.any(m.Q), 'field:NM', 'defaults')
    # boxes
    x = [num(c) for _ in range(4)]
    lo, hi = [min(x[0], x[2]), min(x[1], x[3])], [max(x[0], x[2]), max(x[1], x[3])]
    a = lmb.AABBox(*x)
    c.need(same(list(a.min), lo) and same(list(a.max), hi) and same(ob.raw(a), lo + hi), 'field:AABBox', lambda: '%r gives %r' % (x, ob.raw(a)))
    check_clones(c, a, 'AABBox')
    c.need(repr(a) == ob.text(a), 'text:AABBox', repr(a))
    u = lmb.AABBox()
    c.need(u.min[0] < -1e4 and u.min[1] < -1e4 and u.max[0] > 1e4 and u.max[1] > 1e4, 'field:AABBox', 'the default box is not unbounded: %r' % u)
    fields(c, u, lambda s: F(s['min']) + F(s['max']), dict(min=np.array(u.min), max=np.array(u.max)), 'AABBox')
    check_clones(c, u, 'AABBox')
    K = nums(c, 2, 4)
    b = lmb.BBox(shape(c, K))
    c.need(same(ob.raw(b), F(K)), 'field:BBox', 'construction from corners')
    check_clones(c, b, 'BBox')
    check_clones(c, lmb.BBox(), 'BBox')
    c.need(repr(b) == ob.text(b), 'text:BBox', repr(b))
    w = lmb.BBox(a)
    got = {tuple(v) for v in w.corners.T.tolist()}
    c.need(got == {(i, j) for i in (lo[0], hi[0]) for j in (lo[1], hi[1])}, 'field:BBox', lambda: 'box of %r is %r' % (a, w))
    c.need(same(sorted(ob.raw(w.aabbox())), sorted(lo + hi)) or {lo[0] == hi[0], lo[1] == hi[1]} != {False}, 'field:BBox', 'aabbox of an axis-aligned box')
    fields(c, b, lambda s: F(s['corners']), dict(corners=K), 'BBox')
    # sensor
    s = lmb.PositionSensor()
    r = ob.raw(s)
    c.need(same(F(s.fov.corners), r[:8]) and same(F(s.pv), r[8:12]) and same([s.lambdaB, s.pD, s.kappa], r[12:]), 'field:PositionSensor', 'defaults')
    st = dict(pv=np.array(s.pv), lambdaB=s.lambdaB, pD=s.pD, kappa=s.kappa)
    fields(c, s, lambda q: r[:8] + F(q['pv']) + [q['lambdaB'], q['pD'], q['kappa']], st, 'PositionSensor')
    s.fov = b
    c.need(same(ob.raw(s)[:8], ob.raw(b)) and same(F(s.fov.corners), ob.raw(b)), 'field:PositionSensor.fov', 'assignment')
    x, P = c.n.randn(2) * 50, c.spd(0.01, 100)
    s.fov.from_gaussian(x, P, 1.5)
    c.need(same(ob.raw(s)[:8], ob.from_gaussian(F(x), F(P), 1.5)), 'field:PositionSensor.fov', 'from_gaussian on the field of view of a sensor')
    fov = s.fov
    keep = ob.raw(fov)
    del s
    gc.collect()
    c.need(same(ob.raw(fov), keep), 'field:PositionSensor.fov', 'field of view of a sensor that is gone')
    fov.from_gaussian(x, P)
    c.need(same(ob.raw(fov), ob.from_gaussian(F(x), F(P), 2.0)), 'default:nstd', 'from_gaussian')
    fov.from_gaussian(mean=x, cov=P, nstd=0.3)
    c.need(same(ob.raw(fov), ob.from_gaussian(F(x), F(P), 0.3)), 'field:BBox', 'from_gaussian with keywords')
    # densities and reports
    x4, P4, w = nums(c, 4), nums(c, 4, 4), num(c)
    for g in (lmb.Gaussian(x4, shape(c, P4), w), lmb.Gaussian(state=x4, cov=P4, w=w)):
        c.need(same(ob.raw(g), F(x4) + F(P4) + [w]), 'field:Gaussian', 'construction')
    c.need(same(lmb.Gaussian(x4, P4).w, 1.0), 'field:Gaussian', 'default weight')
    fields(c, g, lambda q: F(q['m']) + F(q['P']) + [q['w']], dict(m=x4, P=P4, w=w), 'Gaussian')
    c.need(repr(g) == ob.text(g), 'text:Gaussian', repr(g))
    x2, P2, k = nums(c, 2), nums(c, 2, 2), num(c)
    for z in (lmb.GaussianReport(x2, shape(c, P2), k), lmb.GaussianReport(state=x2, cov=P2, kappa=k)):
        c.need(same(ob.raw(z), F(x2) + F(P2) + [k, 0.0]), 'field:GaussianReport', lambda: 'construction: %r' % ob.raw(z))
    c.need(same(lmb.GaussianReport(x2, P2).kappa, 1.0), 'field:GaussianReport', 'default clutter density')
    s = lmb.PositionSensor()
    s.kappa = k
    z = lmb.GaussianReport(s, x2, P2)
    c.need(same(ob.raw(z), F(x2) + F(P2) + [k, 0.0]), 'field:GaussianReport', 'the sensor\'s clutter density is not taken over')
    cid = c.r.choice([0, 1, 7, 4294967295, c.r.randrange(2 ** 32)])
    ob.set_report(z, 0.5, cid)
    c.need(z.cid == cid, 'field:GaussianReport.cid', 'cid %r' % z.cid)
    check_clones(c, z, 'GaussianReport')
    c.need(repr(z) == ob.text(z), 'text:GaussianReport', repr(z))
    fields(c, z, lambda q: F(q['x']) + F(q['P']) + [q['kappa'], float(cid)], dict(x=x2, P=P2, kappa=k), 'GaussianReport')
    # summaries
    i, cid = (c.r.choice([0, 1, 4294967295, c.r.randrange(2 ** 32)]) for _ in range(2))
    t = ob.summary(F(x4), F(P4), w, i, cid)
    for q in (t, pickle.loads(pickle.dumps(t)), copy.copy(t)):
        c.need(same(q.x, x4) and same(q.P, P4) and same(q.r, w) and q.id == i and q.cid == cid, 'field:Target', lambda: '%r of %r' % ((q.x, q.P, q.r, q.id, q.cid), (x4, P4, w, i, cid)))
    check_clones(c, t, 'Target')
    c.need(repr(t) == ob.text(t), 'text:Target', repr(t))
    for k in ('x', 'P', 'r', 'id', 'cid'):
        try:
            setattr(t, k, getattr(t, k))
            c.fail('field:Target', k + ' of a summary can be assigned')
        except AttributeError:
            pass
    # what cannot be right is refused, not taken
    for f in (lambda: lmb.BBox(np.zeros((3, 4))), lambda: lmb.GaussianReport(np.zeros(3), np.eye(2)), lambda: lmb.NM(1.0, np.eye(3)), lambda: lmb.CV('a'), lambda: lmb.Tracker().predict(3, 1, 0),
              lambda: lmb.Tracker().correct(lmb.PositionSensor(), [3], 0.0), lambda: lmb.Tracker().get_targets(3)):
        try:
            f()
            c.fail('refusal', 'nonsense was accepted')
        except (TypeError, ValueError):
            c.count('refusals')
    c.mark(ob.raw(g)[:3])


def geometry(c):
    lat, lon = c.r.uniform(-72, 72), c.r.uniform(-179, 179)
    o = np.array([lat, lon])
    ll = o + c.n.randn(2) * c.r.choice([1e-5, 1e-3, 0.1])
    alt = c.r.uniform(-100, 1e4)
    lla, lla2 = np.array([lat, lon, alt]), np.array([ll[0], ll[1], alt + c.r.gauss(0, 10)])
    ne = c.n.randn(2) * c.logu(0.1, 1e4)
    ned = np.append(ne, c.r.gauss(0, 50))
    e = cf.lla2ecef(lla2)
    e2 = cf.ll2ecef(ll)
    for f, a in dict(nedrot=(lla,), lla2ecef=(lla,), ecef2ned=(e, lla), lla2ned=(lla2, lla), ecef2lla=(e,), ned2ecef=(ned, lla), ned2lla=(ned, lla), nerot=(o,), ll2ecef=(o,),
                     ecef2ne=(e2, o), ll2ne=(ll, o), ecef2ll=(e2,), ne2ecef=(ne, o), ne2ll=(ne, o)).items():
        got = getattr(cf, f)(*a)
        want = ob.cf(f, F(a[0]), F(a[1]) if len(a) > 1 else [])
        c.need(same(F(got), want), 'cf:' + f, lambda: '%s%r is %r, not %r' % (f, a, got, want))
        n = {'nedrot': (3, 3), 'nerot': (2, 3)}.get(f)
        c.need(got.shape == (n or ((3,) if len(want) == 3 else (2,))), 'cf:' + f, 'shape %r' % (got.shape,))
        c.count('conversions')
    a = lmb.AABBox(*(ne.tolist() + (ne + np.abs(c.n.randn(2)) * 100).tolist()))
    c.need(same(ob.raw(a.llaabbox(o)), ob.llaabbox(a, o)), 'box:llaabbox', 'differs')
    g = a.llaabbox(o)
    c.need(same(ob.raw(g.neaabbox(o)), ob.neaabbox(g, o)), 'box:neaabbox', 'differs')
    b = lmb.BBox(a.llaabbox(o))
    c.need(same(ob.raw(b.nebbox(o)), ob.nebbox(b, o)), 'box:nebbox', 'differs')
    c.need(same(ob.raw(b.aabbox()), ob.aabbox(b)), 'box:aabbox', 'differs')
    P, P4, n = c.spd(0.1, 30), c.spd(0.1, 30, 4), c.r.uniform(0.2, 5)
    z = lmb.GaussianReport(ll, P, 0.1)
    t = ob.summary(F(ll) + [0.0, 1.0], F(P4), 0.5, 1, 2)
    for w, v in ((z, 'GaussianReport'), (t, 'Target')):
        c.need(same(ob.raw(w.nebbox(o, n)), ob.nebbox(w, o, n)) and same(ob.raw(w.nebbox(origin=o, nstd=n)), ob.nebbox(w, o, n)), 'box:%s.nebbox' % v, 'differs')
        c.need(same(ob.raw(w.nebbox(o)), ob.nebbox(w, o, 2.0)), 'default:nstd', 'nebbox of a ' + v)


def region(c, ts, o, L):
    """A box on the map: around, beside or exactly touching something tracked; its corners in any order."""
    k = c.r.randint(0, 5)
    if k == 0:
        b = [-89.0, -179.0, 89.0, 179.0]
    elif ts and k < 4:
        x = np.array(ts[c.r.randrange(len(ts))].x[:2])
        d = np.abs(c.n.randn(2)) * c.r.choice([1e-6, 1e-4, 1e-3]) + 1e-9
        b = (x - d).tolist() + (x + d).tolist()
    else:
        a = cf.ne2ll(c.n.randn(2) * L, o)
        b = a.tolist() + cf.ne2ll(c.n.randn(2) * L, o).tolist()
    if c.p(0.3):
        b = [b[2], b[1], b[0], b[3]]
    return b


def describe(s):
    return (F(s.x), F(s.P), s.r, s.id, s.cid)


def history(c):
    la, lo = c.r.uniform(-70, 70), c.r.uniform(-178, 178)
    o = np.array([la, lo])
    story = ob.Story(c.r.randrange(2 ** 62), la, lo, c.r.randint(4, 14), True)
    par = story.params()
    if c.p(0.5):
        p = lmb.Params()
        for k, v in zip(PN, par):
            setattr(p, k, v)
        t = lmb.Tracker(p)
        p.r_lim = 0.9
    else:
        t = lmb.Tracker()
        for k, v in zip(PN, par):
            setattr(t.params, k, v)
    c.need(same(ob.params(t), par), 'params', 'parameters set: %r, in force: %r' % (par, ob.params(t)))
    twin = ob.Twin(story)
    kept, twinned = [], True
    for k in range(len(story)):
        op = story.op(k)
        scan = []
        if twinned:
            twin.step(t)
        if op[0] == 'add':
            story.add(k, t)
        elif op[0] == 'cv':
            m = lmb.CV(op[1], op[2]) if c.p(0.5) else lmb.CV(q=op[2], pS=op[1])
            c.need(fresh(t.predict, m, op[3], op[4]) is None, 'result', 'predict returns something')
            c.need(same(ob.raw(m), [op[1], op[2]]), 'result', 'predict changed its model')
        elif op[0] == 'nm':
            m = lmb.NM()
            m.pS = op[1]
            m.Q = np.array(op[2]).reshape(4, 4).T
            fresh(t.predict, m, op[3], op[4])
        else:
            s = lmb.PositionSensor()
            K = np.array(op[1]).reshape(4, 2).T
            if c.p(0.5):
                s.fov = lmb.BBox(K)
            else:
                s.fov.corners = K
            s.lambdaB, s.pD, s.pv, s.kappa = op[2], op[3], np.array(op[4]).reshape(2, 2).T, 0.5
            zs = [lmb.GaussianReport(np.array(x), np.array(P).reshape(2, 2).T, kap) for x, P, kap in op[5]]
            raw = [ob.raw(z) for z in zs]
            rs = ob.raw(s)
            scan = fresh(t.correct, s, zs, op[6])
            c.need(isinstance(scan, list) and len(scan) == len(zs), 'scan', 'the scan returned has %d reports of %d' % (len(scan), len(zs)))
            c.need(same(ob.raw(s), rs), 'scan', 'correct changed the sensor')
            for a, b, z in zip(scan, raw, zs):
                g = ob.raw(a)
                c.need(np.allclose(g[:2], b[:2], rtol=0, atol=1e-9) and np.allclose(g[2:6], b[2:6], rtol=1e-9, atol=1e-12) and same(g[6], b[6]), 'scan', lambda: 'report %r came back as %r' % (b, g))
                c.need(same(ob.raw(z), b), 'scan', 'the caller\'s own report changed')
                c.need(same([float(a.cid)], g[7:]), 'scan', 'cluster number')
                c.count('reports')
            c.count('corrections')
        c.count('operations')
        # against the twin that was given the same numbers in C++
        if twinned:
            key, why = twin.compare(t, scan)
            if key == 'tied':
                c.count('tied')
                twinned = False
            elif key:
                raise __import__('common').Bad('twin:' + key, 'after operation %d %r: %s' % (k, op[:4], why))
        # lists, counts, queries and diagnostics
        want = ob.get_targets(t)
        got = t.get_targets()
        c.need(same([describe(s) for s in got], want), 'get_targets', lambda: '%r, not %r' % (got, want))
        truth = ob.targets(t)
        c.need([(s.id, s.cid) for s in got] == [(q[0], q[1]) for q in truth] and same([s.r for s in got], [q[2] for q in truth]), 'get_targets', 'identities or existence')
        for s in got:
            c.need(repr(s) == ob.text(s), 'text:Target', 'text of a summary')
            c.count('summaries')
        c.need(same(t.enof_targets(), ob.enof(t)), 'enof_targets', 'all')
        c.need(t.nof_targets() == ob.nof(t, 0.7) == sum(q[2] >= 0.7 for q in truth), 'nof_targets', 'default limit')
        lims = [c.r.random(), 0.0] + [q[2] for q in truth[:2]]
        for l in lims:
            c.need(t.nof_targets(l) == t.nof_targets(r_lim=l) == ob.nof(t, l), 'nof_targets', 'limit %r' % l)
        for _ in range(3):
            b = region(c, got, o, story.radius())
            box = lmb.AABBox(*b)
            c.need(same([describe(s) for s in t.get_targets(box)], ob.get_targets(t, b)), 'get_targets:region', lambda: repr(b))
            c.need(same(t.enof_targets(box), ob.enof(t, b)), 'enof_targets:region', lambda: repr(b))
            c.need(t.nof_targets(box) == ob.nof(t, b, 0.7), 'nof_targets:region', lambda: repr(b))
            for l in lims:
                c.need(t.nof_targets(box, l) == t.nof_targets(aabbox=box, r_lim=l) == ob.nof(t, b, l), 'nof_targets:region', lambda: '%r limit %r' % (b, l))
            c.count('queries')
            c.count('hits', ob.nof(t, b, 0.0))
        if c.p(0.3):
            L = story.radius() * c.r.choice([0.5, 1.5])
            x = cf.ne2ll(np.array([-L, -L]), o).tolist() + cf.ne2ll(np.array([L, L]), o).tolist()
            size = np.array([c.r.randint(1, 12), c.r.randint(1, 12)])
            g = fresh(t.pos_phd, lmb.AABBox(*x), size)
            c.need(g.shape == tuple(size) and same(g.tolist(), ob.pos_phd(t, x, int(size[0]), int(size[1]))), 'pos_phd', lambda: 'grid %r' % (size,))
            c.count('grids')
            c.count('grids_with_mass', float(g.sum() > 0))
        if c.p(0.5):
            tr = [np.array(s.x) + np.append(c.n.randn(2) * 1e-5, c.n.randn(2)) for s in got if c.p(0.8)] + [np.append(cf.ne2ll(c.n.randn(2) * 100, o), [0, 0]) for _ in range(c.r.randint(0, 2))]
            if tr or got:
                cc, pp = c.logu(0.1, 1e3), c.r.choice([1.0, 2.0, 3.0])
                a = (t.ospa(tr, cc, pp), t.gospa(tr, cc, pp))
                b = (ob.score(t, [F(x) for x in tr], cc, pp, False), ob.score(t, [F(x) for x in tr], cc, pp, True))
                c.need(same(a, b), 'score', lambda: '%r, not %r' % (a, b))
                c.count('scores')
        d = (list(t.cluster_ntargets), list(t.cluster_nreports), list(t.cluster_nhyps), t.nof_clusters)
        c.need(same(d, tuple(ob.diag(t))), 'diagnostics', lambda: '%r, not %r' % (d, ob.diag(t)))
        # what was handed out stays as it was
        kept += [(s, describe(s), np.array(s.x), s.x, s.P, np.array(s.P)) for s in got[:4]] + [(r, ob.raw(r)) for r in scan[:3]] + [(m_, list(m_)) for m_ in (t.cluster_ntargets,)]
        if got and c.p(0.2):
            check_clones(c, got[c.r.randrange(len(got))], 'Target')
        if scan and c.p(0.2):
            check_clones(c, scan[c.r.randrange(len(scan))], 'GaussianReport')
        c.mark([round(q[2], 9) for q in truth])
    a, b, e = twin.compared()
    c.count('twin_targets', a)
    c.count('twin_births', e)
    if c.p(0.5):
        del t, twin, story
        got = want = truth = scan = zs = None
        gc.collect()
        junk = [lmb.Tracker() for _ in range(3)]
        for j in junk:
            j.correct(lmb.PositionSensor(), [lmb.GaussianReport(np.array([1.0, 2.0]), np.eye(2), 0.1)], 0.0)
    for q in kept:
        if isinstance(q[0], lmb.Target):
            c.need(same(describe(q[0]), q[1]) and same(q[3], q[2]) and same(q[4], q[5]), 'lifetime', lambda: 'a summary changed after further updates: %r became %r' % (q[1], describe(q[0])))
        elif isinstance(q[0], lmb.GaussianReport):
            c.need(same(ob.raw(q[0]), q[1]), 'lifetime', 'a report changed after further updates')
        else:
            c.need(q[0] == q[1], 'lifetime', 'diagnostics handed out changed')
        c.count('kept')


def case(c):
    if c.cas % 8 == 0:
        values(c)
        geometry(c)
    else:
        history(c)


main(case)
