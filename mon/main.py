#!/usr/bin/python3 -B
"""Supervisor of one check: builds /repo's current tree, runs the monitored workloads in worker
processes (PyPy), watches the workers themselves (crash, sanitizer report, no termination), merges
what the monitors observed, writes the evidence file and decides the exit status.

exit 0  the property held on everything explored (known findings are printed)
exit 1  VIOLATION
exit 3  inconclusive: the monitors did not observe what they have to observe
"""
import argparse, hashlib, importlib, json, os, re, shutil, signal, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, VERIF)
sys.dont_write_bytecode = True
from mon import build, registry                    # noqa: E402

PYPY = '/opt/pypyvenv/bin/python'
CPU_LIMIT = 240.0      # CPU seconds one case may use before it is reported as not terminating


def env_for(libdir, scratch, extra=None):
    e = {'HOME': '/root' if os.geteuid() == 0 else scratch, 'LANG': 'C.UTF-8',
         'PATH': '/opt/pypyvenv/bin:/usr/local/bin:/usr/bin:/bin',
         'PYTHONPATH': '%s:/repo:%s' % (libdir, VERIF), 'PYTHONDONTWRITEBYTECODE': '1',
         'PYTHONHASHSEED': '0', 'MPLBACKEND': 'Agg', 'MPLCONFIGDIR': os.path.join(scratch, 'mpl'),
         'OPENBLAS_NUM_THREADS': '1', 'OMP_WAIT_POLICY': 'passive', 'OMP_NUM_THREADS': '4',
         'OMP_DYNAMIC': 'false', 'TQDM_DISABLE': '1', 'PIP_NO_INDEX': '1'}
    e.update(extra or {})
    return e


def cpu_time(pid):
    try:
        f = open('/proc/%d/stat' % pid).read().rsplit(')', 1)[1].split()
        return (int(f[11]) + int(f[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, IndexError):
        return None


class Worker:
    def __init__(self, sup, group, w, W):
        self.sup, self.group, self.w, self.W = sup, group, w, W
        self.out = os.path.join(sup.scratch, 'g%s-w%d.jsonl' % (group['name'], w))
        self.err = os.path.join(sup.scratch, 'g%s-w%d.err' % (group['name'], w))
        open(self.out, 'w').close()
        self.pos = 0
        self.skip = 0
        self.current = None
        self.done = False
        self.restarts = 0
        self.finished_units = 0
        self.start()

    def start(self):
        g = self.group
        job = {'prop': self.sup.prop, 'tier': self.sup.tier, 'seed': self.sup.seed, 'w': self.w, 'W': self.W,
               'skip': self.skip, 'out': self.out, 'group': g['name'], 'only': self.sup.only,
               'replay': self.sup.replay, 'scale': self.sup.scale,
               'deadline': self.sup.deadline, 'scratch': self.sup.scratch}
        env = env_for(build_dirs[g['variant']], self.sup.scratch, g.get('env'))
        omp = g.get('omp')
        if omp:
            env['OMP_NUM_THREADS'] = str(omp[self.w % len(omp)])
        if g['variant'] == 'asan':
            env.update(registry.asan_env(self.sup.scratch))
        if g.get('env_fn'):
            env.update(g['env_fn'](self.sup.scratch, self.w))
        self.errf = open(self.err, 'a')
        self.p = subprocess.Popen([PYPY, '-B', '-m', 'mon.worker', json.dumps(job)], env=env, cwd=self.sup.scratch,
                                  stdout=self.errf, stderr=self.errf, start_new_session=True)
        self.cpu0 = 0.0

    def kill(self):
        try:
            os.killpg(self.p.pid, signal.SIGKILL)
        except OSError:
            pass
        self.p.wait()

    def read(self):
        with open(self.out) as f:
            f.seek(self.pos)
            data = f.read()
        end = data.rfind('\n')
        if end < 0:
            return
        self.pos += len(data[:end + 1].encode())
        for line in data[:end].split('\n'):
            m = json.loads(line)
            k = m['k']
            if k == 'begin':
                self.current = m
                self.cpu0 = cpu_time(self.p.pid) or 0.0
                self.skip = m['pos']
            elif k == 'end':
                self.current = None
                self.skip = m['pos'] + 1
                self.finished_units += 1
                self.sup.absorb(m)
            elif k == 'violation':
                self.sup.violation(m)
            elif k == 'done':
                self.done = True
                self.sup.reason_stop |= bool(m.get('cut'))
            elif k == 'error':
                self.sup.errors.append(m['text'])

    def poll(self):
        self.read()
        rc = self.p.poll()
        if rc is None:
            c = cpu_time(self.p.pid)
            if self.current and c is not None and c - self.cpu0 > self.group.get('cpu_limit', CPU_LIMIT):
                cur = self.current
                self.kill()
                self.read()
                if self.current is cur:
                    self.sup.violation({'key': 'no-termination:%s' % cur['workload'], 'unit': cur,
                                        'msg': 'the call in progress used more than %d s of CPU time without '
                                               'returning' % self.group.get('cpu_limit', CPU_LIMIT)})
                    self.skip = cur['pos'] + 1
                    self.current = None
                self.again()
            return True
        self.read()
        if rc == 0 and self.done:
            return False
        # the worker died
        cur = self.current
        err = open(self.err, errors='replace').read()
        tail = err[-3000:]
        san = re.search(r'(ERROR: AddressSanitizer: [^\n]*|ThreadSanitizer: [^\n]*|[^\n]*Assertion [^\n]* failed[^\n]*)', err)
        if cur is None and not san:
            self.sup.errors.append('worker %s/%d ended with %s outside any case: %s' % (self.group['name'], self.w, rc, tail))
            return False
        if rc in (-signal.SIGKILL,):
            self.sup.errors.append('worker killed (memory?) in case %r' % (cur,))
            return False
        if rc == 97:               # the worker reports an error of the harness itself
            self.sup.errors.append('harness error in case %r: %s' % (cur, tail))
            return False
        if 'CHECK failed' in err[-200000:] and 'Sanitizer' in err or (san and 'Sanitizer' in san.group(1) and 'ext_acv' not in err):
            self.sup.errors.append('the sanitizer failed in case %r: %s' % (cur, err[err.find('Sanitizer'):][:2000]))
            return False
        name = signal.Signals(-rc).name if rc < 0 else 'exit status %d' % rc
        first = san.group(1) if san else ''
        where = ''
        m = re.search(r'#\d+ 0x[0-9a-f]+ in (\S+?)(?:\(| )[^\n]*ext_acv', err)
        if m:
            where = re.sub(r'^__pyx_\w{1,3}_\d*(?:cyext_acv_nopa|cyext_acv_cache|cyext_acv|cext_acv)?_*\d*(?=[a-z])', '', m.group(1))
        self.sup.violation({'key': 'crash:%s' % (where or (cur or {}).get('workload', '?')), 'unit': cur,
                            'msg': 'the process ended with %s %s %s' % (name, first[:200], where),
                            'stderr': err[san.start():][:4000] if san else tail})
        if cur:
            self.skip = cur['pos'] + 1
        self.current = None
        self.again()
        return not self.done

    def again(self):
        self.restarts += 1
        self.errf.close()
        if self.restarts > 3 or self.sup.replay:
            self.done = True
            return
        open(self.err, 'w').close()
        self.start()


class Supervisor:
    def __init__(self, a):
        self.prop, self.tier, self.seed = a.prop, a.tier, a.seed
        self.only, self.scale = a.only, a.scale
        self.replay = json.load(open(a.replay))['unit'] if a.replay else None
        self.entry = registry.PROPS[self.prop]
        self.violations = []
        self.errors = []
        self.counters = {}
        self.digests = set()
        self.samples = {}
        self.evals = 0
        self.slow = (0.0, '')       # the case that took most CPU time
        self.units = {}
        self.reason_stop = False
        self.t0 = time.time()

    def absorb(self, m):
        w = m['workload']
        self.units[w] = self.units.get(w, 0) + 1
        self.evals += m['evals']
        self.slow = max(self.slow, (m['cpu'], '%s:%s:%s' % (m['group'], m['workload'], m['index'])))
        for k, v in m['counters'].items():
            self.counters[k] = self.counters.get(k, 0) + v
        self.digests.update(m['digests'])
        if m.get('samples'):
            self.samples.setdefault(w, [])
            if len(self.samples[w]) < 2:
                self.samples[w] += m['samples'][:1]

    def violation(self, m):
        self.violations.append(m)

    def run(self):
        global build_dirs
        groups = self.entry['groups']
        if self.replay:
            groups = [g for g in groups if g['name'] == self.replay.get('group', groups[0]['name'])]
        build_dirs = {}
        for v in sorted({g['variant'] for g in groups}):
            build_dirs[v] = build.build(v)
        tb = time.time() - self.t0
        self.scratch = tempfile.mkdtemp(prefix='acvmon-%s-' % self.prop)
        os.mkdir(os.path.join(self.scratch, 'mpl'))
        try:
            self.deadline = time.time() + (self.entry.get('budget', {}).get(self.tier) or
                                           {'quick': 240, 'thorough': 3000}[self.tier])
            workers = []
            ncpu = os.cpu_count() or 4
            for g in groups:
                W = 1 if self.replay else g.get('workers', max(1, ncpu // len(groups)))
                for w in range(W):
                    workers.append(Worker(self, g, w, W))
            live = list(workers)
            while live:
                time.sleep(0.05)
                live = [w for w in live if not (w.done and w.p.poll() is not None and (w.read() or True)) and w.poll()]
                if time.time() > self.deadline + 420:
                    self.errors.append('workers still busy long after the deadline')
                    break
            for w in workers:
                if w.p.poll() is None:
                    w.kill()
                w.read()
            # reports that do not end the process (UBSan, unraisable errors) are found in stderr
            for w in workers:
                self.scan_stderr(w)
        finally:
            if os.environ.get('MON_KEEP'):
                print('scratch kept:', self.scratch)
            else:
                shutil.rmtree(self.scratch, ignore_errors=True)
        return self.finish(tb)

    def scan_stderr(self, w):
        try:
            err = open(w.err, errors='replace').read()
        except OSError:
            return
        for pat, kind in registry.STDERR_PATTERNS:
            for m in re.finditer(pat, err):
                found = kind(m)
                if not found:
                    continue
                key, text = found
                if not any(v['key'] == key for v in self.violations):
                    # the case in which it happened is the last marker before the report
                    head = err[:m.start()]
                    u = re.findall(r'@@UNIT (\{.*?\})\n', head)
                    unit = json.loads(u[-1]) if u else None
                    self.violation({'key': key, 'unit': unit, 'msg': text, 'stderr': m.group(0)[:4000]})

    def finish(self, tb):
        known = []
        p = os.path.join(VERIF, 'known_findings.json')
        if os.path.exists(p):
            known = [k for k in json.load(open(p))['findings'] if k['property'] == self.prop]
        new, seen_known = [], {}
        for v in self.violations:
            k = next((k for k in known if re.fullmatch(k['key'], v['key'])), None)
            if k:
                seen_known.setdefault(k['key'], (k, v))
            else:
                new.append(v)
        os.makedirs(os.path.join(VERIF, 'replays'), exist_ok=True)
        lines, keys = [], set()
        for v in new:
            if v['key'] in keys:
                continue
            keys.add(v['key'])
            name = re.sub(r'[^A-Za-z0-9_.-]+', '_', v['key'])[:80]
            rp = os.path.join(VERIF, 'replays', '%s-%s.json' % (self.prop, name))
            with open(rp, 'w') as f:
                json.dump({'property': self.prop, 'seed': self.seed, 'tier': self.tier, 'key': v['key'],
                           'unit': v.get('unit'), 'msg': v['msg'], 'detail': v.get('detail'),
                           'stderr': v.get('stderr'),
                           'how': 'bin/check %s --replay %s' % (self.prop, rp)}, f, indent=1, default=str)
            lines.append('VIOLATION property=%s replay=%s   # %s: %s' % (self.prop, rp, v['key'], v['msg'][:300]))
        for k, v in seen_known.values():
            print('KNOWN-FINDING: property=%s %s' % (self.prop, k['what']))
        miss = []
        if not self.replay and not self.only and not new:
            for c, n in self.entry.get('required', {}).items():
                n = n if not self.reason_stop else max(1, n // 10)
                n = max(1, int(n * min(1.0, self.scale)))
                if self.counters.get(c, 0) < n:
                    miss.append('%s=%d<%d' % (c, self.counters.get(c, 0), n))
        wall = time.time() - self.t0
        ev = {'property': self.prop, 'tier': self.tier, 'seed': self.seed,
              'level': 'exploration',
              'coverage': {'evaluations': self.evals, 'distinct_nontrivial': len(self.digests),
                           'rule': self.entry['rule'],
                           'samples': [s for w in sorted(self.samples) for s in self.samples[w]][:12] or ['none'],
                           'cases_per_workload': self.units, 'monitor_counters': dict(sorted(self.counters.items())),
                           'stopped_by_time_budget': self.reason_stop, 'build_s': round(tb, 1),
                           'slowest_case_cpu_s': {self.slow[1]: round(self.slow[0], 1)}},
              'assumptions': self.entry.get('assumptions', []),
              'violations': len({v['key'] for v in new}), 'wall_s': round(wall, 1)}
        if not self.replay and not self.only:
            os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
            with open(os.path.join(VERIF, 'evidence', self.prop + '.json'), 'w') as f:
                json.dump(ev, f, indent=1)
        print('%s %s seed=%d: %d evaluations, %d distinct, cases %s, build %.0f s, wall %.0f s, slowest case %s %.0f s' % (
            self.prop, self.tier, self.seed, self.evals, len(self.digests), self.units, tb, wall, self.slow[1], self.slow[0]))
        for ln in lines[:12]:
            print(ln)
        if new:
            return 1
        if self.errors:
            for e in self.errors[:4]:
                print('ERROR', e[-3000:])
            return 3
        if miss:
            print('INCONCLUSIVE: monitors not reached:', ', '.join(miss))
            return 3
        return 0


def main():
    ap = argparse.ArgumentParser()
    ap.add_argument('prop')
    ap.add_argument('--tier', default=os.environ.get('VERIF_TIER') or 'quick')
    ap.add_argument('--seed', type=int, default=int(os.environ.get('VERIF_SEED') or 1))
    ap.add_argument('--replay')
    ap.add_argument('--only')
    ap.add_argument('--scale', type=float, default=1.0)
    a = ap.parse_args()
    if a.tier not in ('quick', 'thorough'):
        a.tier = 'quick'
    rc = Supervisor(a).run()
    sys.stdout.flush()
    sys.exit(rc)


if __name__ == '__main__':
    main()
