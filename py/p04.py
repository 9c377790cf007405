"""P04: the asynchronous layer against recording, failing, slow and real trackers."""
import asyncio, concurrent.futures, os, threading, time, warnings
import numpy as np
warnings.simplefilter('ignore')
from common import main, same, Bad
import lmb
from lmb import cf
import observer as ob
import p03
import matplotlib.pyplot as plt

LIMIT = 40      # seconds a batch of calls that take milliseconds may need


class Oops(Exception):
    pass


class Recorder:
    """Stands in for the tracker: every call returns (or raises) an object of its own and notes its arguments."""
    def __init__(self, c, delays, fail):
        self.calls, self.lock, self.delays, self.fail = {}, threading.Lock(), delays, fail
        self.order = []
        self.loop_thread = threading.get_ident()
        self.gate = None

    def _call(self, name, args):
        with self.lock:
            n = len(self.order)
            self.order.append(name)
            key = (name,) + tuple(id(a) for a in args)
            self.calls[key] = self.calls.get(key, 0) + 1
        if self.gate is not None:
            self.gate.wait(LIMIT)
        time.sleep(self.delays[n % len(self.delays)])
        if args and isinstance(args[0], Token) and args[0].err is not None:
            raise args[0].err
        return (name, args)

    def predict(self, *a):
        return self._call('predict', a)

    def correct(self, *a):
        return self._call('correct', a)

    def get_targets(self, *a):
        return self._call('get_targets', a)

    def enof_targets(self, *a):
        return self._call('enof_targets', a)

    def nof_targets(self, *a):
        return self._call('nof_targets', a)


class Token:
    def __init__(self, err=None):
        self.err = err


def executor(c):
    return concurrent.futures.ThreadPoolExecutor(max_workers=c.r.choice([1, 2, 3, 8])) if c.p(0.7) else None


def go(c, coro):
    loop = asyncio.new_event_loop()
    asyncio.set_event_loop(loop)
    try:
        return loop.run_until_complete(asyncio.wait_for(coro, LIMIT))
    except asyncio.TimeoutError:
        raise Bad('deadlock', 'the calls did not complete within %d s' % LIMIT)
    finally:
        loop.close()
        asyncio.set_event_loop(None)


def recorded(c):
    async def run():
        app = lmb.Application(executor=executor(c)) if c.p(0.8) else lmb.Application(asyncio.get_running_loop(), executor(c))
        rec = app.tracker = Recorder(c, [c.r.choice([0, 0, 0.001, 0.004]) for _ in range(7)], 0.2)
        todo = []
        for _ in range(c.r.randint(1, 40)):
            err = c.r.choice([ValueError('v'), Oops('o'), KeyError('k'), RuntimeError('r'), ZeroDivisionError()]) if c.p(0.2) else None
            k = c.r.randint(0, 4)
            if k == 0:
                a = (Token(err), Token(), Token())
                todo.append(('predict', a, err, app.predict(*a)))
            elif k == 1:
                a = (Token(err), Token(), Token())
                todo.append(('correct', a, err, app.correct(*a)))
            elif k == 2:
                todo.append(('get_targets', (), None, app.get_targets()))
            elif k == 3:
                a = tuple([Token(err)][:c.r.randint(0, 1)])
                todo.append(('enof_targets', a, err if a else None, app.enof_targets(*a)))
            else:
                a = (Token(err), Token())[:c.r.randint(0, 2)]
                todo.append(('nof_targets', a, err if a else None, app.nof_targets(*a)))
        c.count('async_calls', len(todo))
        if c.p(0.3):
            got = []
            for q in todo:
                try:
                    got.append(await q[3])
                except Exception as e:
                    got.append(e)
        else:
            got = await asyncio.gather(*[q[3] for q in todo], return_exceptions=True)
        for (name, a, err, _), g in zip(todo, got):
            if err is not None:
                c.need(g is err, 'error', lambda: '%s raised %r, the caller got %r' % (name, err, g))
                c.count('errors_passed_on')
            else:
                c.need(isinstance(g, tuple) and g[0] == name and len(g[1]) == len(a) and all(x is y for x, y in zip(g[1], a)), 'result', lambda: '%s%r gave the caller %r' % (name, a, g))
        c.need(len(rec.order) == len(todo) and all(n == 1 for k, n in rec.calls.items() if len(k) > 1), 'calls', lambda: '%d calls made, %d reached the tracker' % (len(todo), len(rec.order)))
        c.mark(rec.order)
        # the loop goes on while the tracker works: the call can only finish once another coroutine has run
        rec.gate = threading.Event()

        async def opener():
            while len(rec.order) == len(todo):
                await asyncio.sleep(0.0005)
            rec.gate.set()
        n = len(todo)
        g, _ = await asyncio.gather(app.get_targets(), opener())
        c.need(g == ('get_targets', ()), 'result', 'gated call')
        # giving up on a slow call does not spoil the next
        if c.p(0.3):
            rec.gate = threading.Event()
            t = asyncio.ensure_future(app.correct(Token(), 1, 2))
            await asyncio.sleep(0.002)
            t.cancel()
            try:
                await t
                c.fail('cancel', 'a cancelled call returned')
            except asyncio.CancelledError:
                c.count('cancelled')
            rec.gate.set()
            k = Token()
            g = await app.nof_targets(k)
            c.need(g[0] == 'nof_targets' and g[1][0] is k, 'result', 'after a cancelled call')
        app._executor.shutdown(wait=True)
    go(c, run())


def kinds(c, call, got, cls):
    c.need(isinstance(got, list) and all(isinstance(x, cls) for x in got), 'result', lambda: '%s returned %.200r' % (call, got))


def real(c):
    la, lo = c.r.uniform(-70, 70), c.r.uniform(-178, 178)
    story = ob.Story(c.r.randrange(2 ** 62), la, lo, c.r.randint(4, 12), True)

    async def run():
        app = lmb.Application(executor=executor(c))
        t = app.tracker = lmb.Tracker(app.tparams)
        for k, v in zip(['w_lim', 'r_lim', 'nhyp_max', 'rB_max', 'nstd', 'cw_lim', 'cov_lim', 'tscale'], story.params()):
            setattr(t.params, k, v)
        twin, on, stop = ob.Twin(story), True, [False]
        box = lmb.AABBox(*(cf.ne2ll(np.array([-1e3, -1e3]), [la, lo]).tolist() + cf.ne2ll(np.array([1e3, 1e3]), [la, lo]).tolist()))

        async def asker():
            while not stop[0]:
                k = c.r.randint(0, 4)
                if k == 0:
                    g = await app.get_targets()
                    kinds(c, 'get_targets', g, lmb.Target)
                    ids = [x.id for x in g]
                    c.need(len(set(ids)) == len(ids) and all(0 <= x.r <= 1 + 1e-9 for x in g), 'query', 'no state of the tracker: %r' % ids)
                elif k == 1:
                    e = await app.enof_targets(box)
                    c.need(isinstance(e, float) and e >= 0, 'query', repr(e))
                elif k == 2:
                    n = await app.nof_targets(box, 0.0)
                    c.need(isinstance(n, int) and n >= 0, 'query', repr(n))
                elif k == 3:
                    e = await app.enof_targets()
                    c.need(isinstance(e, float), 'query', repr(e))
                else:
                    n = await app.nof_targets(0.5)
                    c.need(isinstance(n, int) and n >= 0, 'query', repr(n))
                c.count('queries_in_flight')
                await asyncio.sleep(c.r.choice([0, 0.0005]))
        asks = [asyncio.ensure_future(asker()) for _ in range(c.r.randint(0, 3))]
        for k in range(len(story)):
            op = story.op(k)
            scan = []
            if op[0] == 'add':
                # not a call of the application layer
                stop[0] = True
                await asyncio.gather(*asks)
                story.add(k, t)
                stop[0] = False
                asks = [asyncio.ensure_future(asker()) for _ in asks]
            if on:
                # what the twin needs of the tracker is read while nothing changes it
                before = ob.targets(t)
                twin.step(t)
                if op[0] == 'add':
                    key, why = twin.compare(t, scan)
                    c.need(key in ('', 'tied'), 'twin:' + key, why)
                    continue
            if op[0] == 'cv':
                await app.predict(lmb.CV(op[1], op[2]), op[3], op[4])
            elif op[0] == 'nm':
                await app.predict(lmb.NM(op[1], np.array(op[2]).reshape(4, 4).T), op[3], op[4])
            elif op[0] == 'cor':
                s = lmb.PositionSensor()
                s.fov.corners = np.array(op[1]).reshape(4, 2).T
                s.lambdaB, s.pD, s.pv = op[2], op[3], np.array(op[4]).reshape(2, 2).T
                scan = await app.correct(s, [lmb.GaussianReport(np.array(x), np.array(P).reshape(2, 2).T, kap) for x, P, kap in op[5]], op[6])
                kinds(c, 'correct', scan, lmb.GaussianReport)
                c.need(len(scan) == len(op[5]), 'result', 'correct does not return the scan: %r' % (scan,))
            if on:
                key, why = twin.compare(t, scan)
                if key == 'tied':
                    on = False
                    c.count('tied')
                else:
                    c.need(not key, 'twin:' + key, lambda: 'after operation %d %r: %s' % (k, op[:4], why))
            want = ob.get_targets(t)
            g = await app.get_targets()
            kinds(c, 'get_targets', g, lmb.Target)
            c.need(same([(np.asarray(s.x).tolist(), np.asarray(s.P).flatten(order='F').tolist(), s.r, s.id, s.cid) for s in g], want), 'result', 'get_targets')
            c.need(same(await app.enof_targets(), ob.enof(t)) and same(await app.enof_targets(box), ob.enof(t, ob.raw(box))), 'result', 'enof_targets')
            c.need(await app.nof_targets() == ob.nof(t, 0.7) and await app.nof_targets(0.2) == ob.nof(t, 0.2) and await app.nof_targets(box, 0.3) == ob.nof(t, ob.raw(box), 0.3), 'result', 'nof_targets')
            c.count('real_operations')
            c.mark([round(q[2], 9) for q in want])
        # errors of the real tracker
        for bad in (app.predict('x', 1, 0), app.correct(lmb.PositionSensor(), [1], 0.0), app.nof_targets('x')):
            try:
                await bad
                c.fail('error', 'nonsense was accepted')
            except TypeError:
                c.count('errors_passed_on')
        stop[0] = True
        await asyncio.gather(*asks)
        # the density sample
        app.region = box
        app.phdsize = np.array([c.r.randint(1, 8), c.r.randint(1, 8)])
        app.unknown = c.r.choice([0.0, 0.25, c.n.rand(*app.phdsize)])
        keep = np.copy(app.unknown)
        want = []

        def fresh():
            want.append(np.array(app.tracker.pos_phd(app.region, app.phdsize)))
        th = threading.Thread(target=fresh)
        th.start()
        th.join()
        # sampled by chance twice: the totals agree within the sampling error
        g = await app.sample_phd()
        c.need(isinstance(g, np.ndarray), 'phd', 'no density: %r' % (g,))
        c.need(g.shape == keep.shape or keep.ndim == 0, 'phd', 'shape %r' % (g.shape,))
        d = g - keep
        c.need(g.shape == tuple(app.phdsize) and np.array_equal(app.unknown, keep), 'phd', 'shape, or the unknown density was changed')
        tot = ob.enof(t, [-90.0, -180.0, 90.0, 180.0])
        c.need(abs(d.sum() - want[0].sum()) <= 0.3 * tot + 1e-9 and d.min() > -1e-9, 'phd', lambda: 'density %g, the tracker\'s grid %g' % (d.sum(), want[0].sum()))
        app._executor.shutdown(wait=True)
    go(c, run())


def sample(c):
    async def run():
        app = lmb.Application(executor=executor(c))
        n, e = c.r.randint(1, 9), c.r.randint(1, 9)
        g = c.n.rand(n, e) * c.r.choice([1, 0, 1e6])
        g.flags.writeable = c.p(0.5)
        keep = g.copy()
        seen = []

        class Grid:
            def pos_phd(self, *a):
                seen.append(a)
                return g
        app.tracker, app.region, app.phdsize = Grid(), Token(), Token()
        app.unknown = c.r.choice([0.0, 1.5, c.n.rand(n, e), c.n.rand(1, e)])
        un = np.copy(app.unknown)
        for _ in range(2):
            got = await app.sample_phd()
            c.need(np.array_equal(got, keep + un), 'phd', lambda: '%r + %r gave %r' % (keep, un, got))
            c.need(seen[-1][0] is app.region and seen[-1][1] is app.phdsize and len(seen[-1]) == 2, 'phd', 'other arguments')
            c.need(np.array_equal(g, keep) and np.array_equal(app.unknown, un), 'phd', 'the tracker\'s grid or the unknown density was changed')
            c.count('density_samples')
        g.flags.writeable = True
        g[c.r.randrange(n), c.r.randrange(e)] = np.nan
        try:
            await app.sample_phd()
            c.fail('phd', 'an undefined density is passed on')
        except Exception:
            c.count('undefined_refused')
        app._executor.shutdown(wait=True)
        # what the application leaves open says so
        for f in (app.run, app.scans):
            try:
                await f()
                c.fail('abstract', 'returned')
            except NotImplementedError:
                pass
    go(c, run())


def plots(c):
    o = np.array([c.r.uniform(-70, 70), c.r.uniform(-175, 175)])
    app = lmb.Application(asyncio.new_event_loop(), concurrent.futures.ThreadPoolExecutor(max_workers=1))
    app.origin = o
    app.region = lmb.AABBox(*(cf.ne2ll(np.array([-500.0, -400.0]), o).tolist() + cf.ne2ll(np.array([500.0, 300.0]), o).tolist()))
    hist = p03.mkhistory(c, o, empty=0.3)
    zs = [lmb.GaussianReport(cf.ne2ll(c.n.randn(2) * 100, o), p03.cov2(c), 1.0) for _ in range(c.r.randint(0, 5))]
    for z in zs:
        ob.set_report(z, 0.1, c.r.randint(0, 300))
    g = c.n.rand(c.r.randint(1, 9), c.r.randint(1, 9)) * c.r.choice([0, 1, 1e-3])
    plt.close('all')
    plt.figure(figsize=(3, 2), dpi=30)
    ax = plt.gca()
    app.plot_tracks(g, zs, hist)
    c.need(plt.gca() is ax, 'plot', 'other axes are left selected')
    r = ob.neaabbox(app.region, o)
    ext = (r[1], r[3], r[0], r[2])
    im = ax.get_images()[0]
    c.need(np.array_equal(np.asarray(im.get_array()), g) and tuple(im.get_extent()) == ext and im.origin == 'lower', 'plot-density', 'the density is drawn elsewhere')
    c.need(tuple(ax.get_xlim()) == ext[:2] and tuple(ax.get_ylim()) == ext[2:], 'plot-extent', lambda: '%r %r' % (ax.get_xlim(), ax.get_ylim()))
    for k, z in enumerate(zs):
        ne = np.array(ob.cf('ll2ne', list(z.x), list(o)))
        c.need(np.array_equal(p03.line(ax, k)[0], ne[::-1]), 'plot-scan', 'a report is drawn elsewhere')
        p03.contour(c, p03.ellipses_on(ax)[k], np.array(z.P)[::-1, ::-1], ne[::-1], 2, 'plot-scan-ellipse')
    n = len(zs)
    p03.check_tracks(c, ax, hist, o, 0.3, True, True, n, n, n, 'plot-tracks')
    c.count('plots')
    plt.clf()
    ax = plt.gca()
    k = c.r.randint(0, 20)
    nr = [c.r.choice([float('nan'), float(c.r.randint(0, 9))]) for _ in range(k + 1)]
    nt, nv = c.n.rand(k + 1) * 5, [c.r.randint(0, 5) for _ in range(k + 1)]
    app.plot_stats(k, nr, nt.tolist(), nv)
    L = [np.array(l.get_xydata(), dtype=float) for l in ax.get_lines()]
    by = {l.get_label(): d for l, d in zip(ax.get_lines(), L)}
    xs = np.arange(k + 1)
    m = np.isfinite(nr)
    for name, want in (('Estimate', np.c_[xs, nt]), ('Reports', np.c_[xs[m], np.array(nr)[m]]), ('Verified', np.c_[xs, nv])):
        c.need(name in by and by[name].shape == want.shape and np.array_equal(by[name], want), 'plot-stats', name)
    plt.close('all')
    app._executor.shutdown()
    app._loop.close()


def case(c):
    k = c.cas % 4
    if k == 0:
        sample(c)
        plots(c)
    elif k == 1:
        real(c)
    else:
        recorded(c)


main(case)
