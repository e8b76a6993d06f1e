"""Runs this worker's share of the cases of one property inside PyPy, with the monitors."""
import hashlib, importlib, json, os, random, sys, time, traceback, warnings


class Violation(Exception):
    pass


class Ctx:
    """what a workload uses to report what its monitors saw"""

    def __init__(self, job, out):
        self.job, self.out = job, out
        self.tier = job['tier']
        self.scratch = job['scratch']

    def begin(self, unit):
        self.unit = unit
        self.evals = 0
        self.counters = {}
        self.digests = set()
        self.samples = []
        self.nviol = 0
        self.t0 = time.process_time()
        self.write(dict(unit, k='begin'))
        sys.stderr.write('@@UNIT %s\n' % json.dumps(unit))
        sys.stderr.flush()

    def end(self):
        self.write(dict(self.unit, k='end', evals=self.evals, counters=self.counters,
                        digests=sorted(self.digests), samples=self.samples,
                        cpu=time.process_time() - self.t0))

    def write(self, m):
        self.out.write(json.dumps(m, default=str) + '\n')
        self.out.flush()

    def count(self, name, n=1):
        self.counters[name] = self.counters.get(name, 0) + n

    def observed(self, name, sig=None, n=1):
        """one evaluation of a monitor; sig: what makes the observation distinct (None: trivial)"""
        self.evals += n
        self.count(name, n)
        if sig is not None:
            self.digests.add(hashlib.md5(repr((name, sig)).encode()).hexdigest()[:12])

    def sample(self, x):
        if len(self.samples) < 1:
            self.samples.append(x)

    def fail(self, key, msg, detail=None):
        self.nviol += 1
        if self.nviol <= 5:
            self.write({'k': 'violation', 'key': key, 'msg': msg, 'unit': self.unit, 'detail': detail})

    def check(self, ok, key, msg, detail=None):
        if not ok:
            self.fail(key, msg if isinstance(msg, str) else msg(), detail)
        return ok

    def call(self, name, f, *a, **k):
        """a call of the code under test: an exception on a valid input is a violation"""
        try:
            return f(*a, **k)
        except Exception as e:
            tb = traceback.format_exc()
            self.fail('raised:%s:%s' % (name, type(e).__name__), '%s raised %s: %s' % (name, type(e).__name__, str(e)[:200]),
                      tb[-1500:])
            raise Violation()


def main():
    job = json.loads(sys.argv[1])
    out = open(job['out'], 'a')
    ctx = Ctx(job, out)
    warnings.simplefilter('ignore')
    try:
        from mon import registry
        entry = registry.PROPS[job['prop']]
        group = next(g for g in entry['groups'] if g['name'] == job['group'])
        mod = importlib.import_module('mon.props.' + entry['module'])
    except Exception:
        traceback.print_exc()
        ctx.write({'k': 'error', 'text': 'import failed: ' + traceback.format_exc()[-2500:]})
        sys.exit(97)
    wl = getattr(mod, 'WORKLOADS')
    plan = []
    for name, n in group['plan'][job['tier']].items():
        n = max(1, int(n * job['scale']))
        for i in range(n):
            plan.append((name, i))
    # interleave the workloads so that a time limit cuts all of them alike
    plan.sort(key=lambda u: (u[1] / max(1, group['plan'][job['tier']][u[0]]), u[0]))
    if job['only']:
        plan = [u for u in plan if u[0] == job['only']]
    mine = plan[job['w']::job['W']]
    cut = False
    if job['replay']:
        mine = [(job['replay']['workload'], job['replay']['index'])]
        job['seed'] = job['replay'].get('seed', job['seed'])
        job['skip'] = 0
    for pos in range(job['skip'], len(mine)):
        if time.time() > job['deadline']:
            cut = True
            break
        name, i = mine[pos]
        unit = {'workload': name, 'index': i, 'pos': pos, 'group': job['group'], 'seed': job['seed']}
        ctx.begin(unit)
        rng = random.Random(int(hashlib.md5(repr((job['seed'], job['prop'], name, i)).encode()).hexdigest()[:15], 16))
        try:
            wl[name](ctx, rng)
        except Violation:
            pass
        except Exception:
            # the monitors could not make sense of what the code under test returned
            traceback.print_exc()
            ctx.fail('oracle-exception:%s:%s' % (name, sys.exc_info()[0].__name__),
                     'the monitor could not interpret what it observed: %s' % (sys.exc_info()[1],),
                     traceback.format_exc()[-2500:])
        ctx.end()
    ctx.write({'k': 'done', 'cut': cut})
    out.close()
    sys.stdout.flush()
    sys.stderr.flush()
    os._exit(0)


if __name__ == '__main__':
    main()
