"""Harness frame for the Python side: same command line, result file and watchdog as src/common.hpp."""
import argparse, hashlib, json, os, random, signal, struct, sys, traceback
import numpy as np


class Bad(Exception):
    """The property is broken: (key, message)."""


class Ctx:
    def __init__(self, seed, cas, thorough, mode, res, replay):
        self.seed, self.cas, self.thorough, self.mode, self.res, self.replay = seed, cas, thorough, mode, res, replay
        self.r = random.Random(seed)
        self.n = np.random.RandomState(seed & 0xffffffff)
        self.sig = None

    def fail(self, key, msg):
        v = self.res['violations']
        if len(v) < 40 and sum(x['key'] == key for x in v) < 3:
            v.append(dict(key=key, msg=str(msg)[:3000], case=self.cas))
        if self.replay:
            print('[%s] %s' % (key, msg), file=sys.stderr)

    def need(self, ok, key, msg):
        if not ok:
            raise Bad(key, msg() if callable(msg) else msg)

    def count(self, k, d=1):
        self.res['counters'][k] = self.res['counters'].get(k, 0) + d

    def maxi(self, k, d):
        k = 'max_' + k
        self.res['counters'][k] = max(self.res['counters'].get(k, d), d)

    def mark(self, *a):
        self.sig = hashlib.sha1(repr((self.sig,) + a).encode()).hexdigest()[:16]

    def sample(self, s):
        if len(self.res['samples']) < 3:
            self.res['samples'].append(str(s)[:900])

    def p(self, x):
        return self.r.random() < x

    def logu(self, a, b):
        return float(np.exp(self.r.uniform(np.log(a), np.log(b))))

    def spd(self, a, b, k=2):
        """Random covariance with standard deviations between a and b."""
        q, _ = np.linalg.qr(self.n.randn(k, k))
        if self.p(0.2):
            q = np.eye(k)
        l = np.array([self.logu(a, b) for _ in range(k)]) ** 2
        m = (q * l) @ q.T
        return (m + m.T) / 2


def on_hang(*_):
    sys.stderr.write('HARNESS-HANG\n')
    traceback.print_stack(_[1] if len(_) > 1 else None)
    sys.stderr.flush()
    os._exit(97)


def main(case):
    ap = argparse.ArgumentParser()
    for k, d in dict(seed=1, cases=1, shard=0, shards=1, hang=60, until=-1).items():
        ap.add_argument('--' + k, type=int, default=d)
    ap.add_argument('--tier', default='quick')
    ap.add_argument('--mode', default='')
    ap.add_argument('--out', default='/dev/null')
    a = ap.parse_args()
    res = dict(complete=False, evaluations=0, sigs=[], counters={}, samples=[], violations=[])
    sigs = set()
    signal.signal(signal.SIGALRM, on_hang)
    for k in range(a.shard, a.cases, a.shards):
        if a.until >= 0 and k != a.until:
            continue
        open(a.out + '.cur', 'w').write('%d' % k) if a.out != '/dev/null' else None
        seed = int.from_bytes(hashlib.sha256(b'%d/%d/%s' % (a.seed, k, a.mode.encode())).digest()[:8], 'little')
        c = Ctx(seed, k, a.tier == 'thorough', a.mode, res, a.until >= 0)
        signal.alarm(a.hang)
        try:
            case(c)
        except Bad as e:
            c.fail(*e.args)
        except BaseException as e:
            tb = traceback.extract_tb(e.__traceback__)
            # an error out of the code under test is a finding; one out of this harness is not
            here = os.path.dirname(os.path.abspath(__file__))
            if isinstance(e, (KeyboardInterrupt, MemoryError, SystemExit)):
                raise
            root = os.path.abspath(os.environ.get('PYTHONPATH', '/nowhere').split(':')[0]) + '/'
            inner = [f for f in tb if os.path.abspath(f.filename).startswith(root)]
            if inner:
                c.fail('error:%s:%s' % (type(e).__name__, os.path.basename(inner[-1].filename)), traceback.format_exc())
            else:
                traceback.print_exc()
                sys.exit(3)
        signal.alarm(0)
        res['evaluations'] += 1
        if c.sig:
            sigs.add(c.sig)
        if sum(1 for _ in res['violations']) >= 40:
            break
    res['sigs'] = sorted(sigs)
    res['complete'] = True
    if a.out != '/dev/null':
        json.dump(res, open(a.out, 'w'))
    else:
        print(json.dumps(dict(res, sigs=len(sigs)), indent=1)[:3000])


def bits(v):
    """Bit pattern, so that equality is exact and NaN equals itself."""
    if isinstance(v, (int, np.integer)):
        return int(v)
    if isinstance(v, (list, tuple)):
        return tuple(bits(x) for x in v)
    if isinstance(v, np.ndarray):
        return tuple(v.shape) + tuple(bits(x) for x in v.flatten().tolist())
    if isinstance(v, float):
        return struct.pack('<d', v)
    return v


def same(a, b):
    return bits(a) == bits(b)
