#!/usr/bin/env python3
"""Runs the check of one property: check.py ID [quick|thorough]

Steps: model checking of the specification (MC*), generation of schedules from
the specification (Gen*), running the real code (harness/), validation of the
recorded traces by TLC (Trace*). Exit 0: held. Exit 1: a trace of the real code
that the specification does not explain (VIOLATION line). Exit 2: anything else.
"""
import concurrent.futures as cf
import json, os, re, shutil, subprocess, sys, tempfile, time

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(VERIF, 'run'))
REPO = os.environ.get('VERIF_REPO', '/repo')
JARS = '/opt/veriftools/tla/tla2tools.jar:/opt/veriftools/tla/CommunityModules-deps.jar'


class Broken(Exception):
    """The check itself failed."""


def sh(cmd, timeout, **kw):
    try:
        return subprocess.run(cmd, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', timeout=timeout, **kw)
    except subprocess.TimeoutExpired:
        raise Broken('timeout: %s' % ' '.join(cmd)[:200])


class Run:
    def __init__(self, pid, tier, seed, work):
        self.pid, self.tier, self.seed, self.work = pid, tier, seed, work
        self.states = self.transitions = 0
        self.notes = []
        self.deadline = time.time() + (840 if tier == 'quick' else 6 * 3600)
        self.spec = os.path.join(work, 'spec')
        shutil.copytree(os.path.join(VERIF, 'spec'), self.spec)
        self.cls = os.path.join(work, 'cls')

    def left(self):
        return max(5, self.deadline - time.time())

    # -- tools ------------------------------------------------------------
    def javac(self):
        os.makedirs(self.cls)
        r = sh(['javac', '-cp', JARS, '-d', self.cls, os.path.join(VERIF, 'java/vds/Overrides.java')], 120)
        if r.returncode:
            raise Broken('javac: ' + r.stdout)

    def gobuild(self, race=False, virtual=False, server=False):
        env = dict(os.environ, GOTOOLCHAIN='local', GOPROXY='off', GOFLAGS='-mod=mod', GOWORK='off', HOME='/root', CGO_ENABLED='1',
                   GOPATH='/root/go', GOMODCACHE='/root/go/pkg/mod', GOCACHE=os.environ.get('GOCACHE', '/root/.cache/go-build'))
        env['PATH'] = '/opt/veriftools/go1.24.13/bin:' + env['PATH']
        if virtual:  # virtual time
            env['GOEXPERIMENT'] = 'synctest'
        h = os.path.join(self.work, 'harness')
        shutil.copytree(os.path.join(VERIF, 'harness'), h)
        shutil.copytree(os.path.join(VERIF, 'stub'), os.path.join(self.work, 'stub'))
        m = open(os.path.join(h, 'go.mod')).read().replace('=> /repo', '=> ' + REPO)
        open(os.path.join(h, 'go.mod'), 'w').write(m)
        out = os.path.join(self.work, 'drv')
        cmd = ['go', 'build', '-o', out] + (['-race'] if race else []) + ['.']
        r = sh(cmd, 600, cwd=h, env=env)
        if r.returncode:
            raise Broken('go build: ' + r.stdout)
        if server:  # the program that the repository ships
            r = sh(['go', 'build', '-o', os.path.join(self.work, 'vdbserver'), 'github.com/continusec/verifiabledatastructures/cmd/vdbserver'], 600, cwd=h, env=env)
            if r.returncode:
                raise Broken('go build vdbserver: ' + r.stdout)
        return out

    def tlc(self, cfg, module, overrides=False, opts=(), workers='8', env=None, heap='6g', timeout=None):
        java = ['java', '-Xmx' + heap, '-Xss64m', '-XX:+UseParallelGC']
        cp = JARS
        if overrides:
            java.append('-Dtlc2.overrides.TLCOverrides=vds.Overrides:tlc2.overrides.TLCOverrides')
            cp = self.cls + ':' + cp
        meta = tempfile.mkdtemp(dir=self.work, prefix='meta')
        cmd = java + ['-cp', cp, 'tlc2.TLC', '-workers', workers, '-metadir', meta, '-noGenerateSpecTE', '-config', cfg, *opts, module + '.tla']
        r = sh(cmd, timeout or self.left(), cwd=self.spec, env=dict(os.environ, **(env or {})))
        shutil.rmtree(meta, ignore_errors=True)
        return r

    @staticmethod
    def counts(out):
        m = re.findall(r'(\d+) states generated, (\d+) distinct states found', out)
        return (int(m[-1][1]), int(m[-1][0])) if m else (0, 0)

    def cfg(self, name, text):
        p = os.path.join(self.spec, name)
        open(p, 'w').write(text)
        return name

    # -- steps --------------------------------------------------------------
    def model_check(self, cfg, module, overrides=False, workers='4', opts=()):
        """The specification has the property (a failure is a broken specification, not a violation)."""
        t0 = time.time()
        r = self.tlc(cfg, module, overrides, workers=workers, opts=opts)
        if r.returncode or 'No error has been found' not in r.stdout:
            raise Broken('model checking %s: %s' % (cfg, r.stdout[-3000:]))
        d, g = self.counts(r.stdout)
        return {'config': cfg, 'states': d, 'transitions': g, 'wall_s': round(time.time() - t0, 1)}

    def generate(self, module, consts, simulate=None, depth=None):
        """Schedules from the specification, one JSON document per line."""
        consts = dict(consts)
        name = self.cfg('gen_%s_%d.cfg' % (module, len(os.listdir(self.spec))),
                        'SPECIFICATION ' + consts.pop('SPECIFICATION', 'Spec') + '\nCHECK_DEADLOCK FALSE\n'
                        + ('VIEW ' + consts.pop('VIEW') + '\n' if 'VIEW' in consts else '')
                        + ('CONSTANTS\n' + ''.join('  %s %s %s\n' % (k, '' if '<-' in k else '=', v) for k, v in consts.items()) if consts else ''))
        opts = ['-simulate', 'num=%d' % simulate, '-depth', str(depth), '-seed', str(self.seed)] if simulate else []
        r = self.tlc(name, module, opts=opts, workers='1')
        if r.returncode or 'Error:' in r.stdout:
            raise Broken('generation %s: %s' % (module, r.stdout[-3000:]))
        rv = []
        for l in r.stdout.splitlines():
            if l.startswith('"SCHED '):
                rv.append(json.loads(l)[6:])
        rv = sorted(set(rv)) if not simulate else list(dict.fromkeys(rv))
        if not rv:
            raise Broken('no schedules from ' + module)
        return rv

    def drive(self, drv, scen, plan=None, extra=()):
        out = os.path.join(self.work, 'traces_' + scen)
        scratch = os.path.join(self.work, 'scratch_' + scen)
        os.makedirs(out)
        os.makedirs(scratch)
        cmd = [drv, '-scen', scen, '-seed', str(self.seed), '-tier', self.tier, '-out', out, '-scratch', scratch,
               '-keys', os.path.join(VERIF, 'harness/keys.json'), *extra]
        if plan:
            p = os.path.join(self.work, 'plan_' + scen)
            open(p, 'w').write('\n'.join(plan) + '\n')
            cmd += ['-plan', p]
        env = dict(os.environ, GOMAXPROCS='8', GOMEMLIMIT='6GiB', VDBSERVER=os.path.join(self.work, 'vdbserver'))
        r = sh(cmd, self.left(), env=env)
        shutil.rmtree(scratch, ignore_errors=True)
        if r.returncode == 0:
            meta = json.load(open(os.path.join(out, 'meta.json')))
            return out, meta
        if r.returncode in (3, -9):
            raise Broken('driver %s: exit %d: %s' % (scen, r.returncode, r.stdout[-3000:]))
        # the code under test took the process down
        n = len([f for f in os.listdir(out) if f.startswith('t')])
        if n == 0:
            raise Broken('driver %s: exit %d: %s' % (scen, r.returncode, r.stdout[-3000:]))
        self.notes.append('driver ended with %d: %s' % (r.returncode, r.stdout[-1500:]))
        last = os.path.join(out, 't%d.ndjson' % n)
        lines = open(last).read().split('\n')
        if lines and not lines[-1].endswith('}'):
            lines = lines[:-1]
        open(last, 'w').write('\n'.join(lines + ['{"ev":"crash"}']) + '\n')
        return out, {'ntraces': n, 'stats': {}}

    def validate(self, module, consts, tdir, n, heap='10g'):
        """Walk every trace; returns the rejections [(trace, line)]."""
        lens = []
        for i in range(1, n + 1):
            lens.append(sum(1 for l in open(os.path.join(tdir, 't%d.ndjson' % i)) if l.strip()))
        cfg = self.cfg('trace_%s.cfg' % module, 'SPECIFICATION Spec\nVIEW View\nALIAS Where\nCHECK_DEADLOCK FALSE\n'
                       + ('CONSTANTS\n' + ''.join('  %s %s\n' % kv for kv in consts.items()) if consts else ''))
        t0 = time.time()
        r = self.tlc(cfg, module, True, env={'NTRACES': str(n), 'TRACEDIR': tdir}, heap=heap)
        rej = sorted(set((int(a), int(b)) for a, b in re.findall(r'<<"REJECT", (\d+), (\d+)>>', r.stdout)))
        d, g = self.counts(r.stdout)
        if r.returncode not in (0,) or 'Error:' in r.stdout:
            # an answer that the specification has no value for: TLC stops at the event it cannot evaluate
            at = re.findall(r'/\\ t = (\d+)\s+/\\ l = (\d+)|/\\ l = (\d+)\s+/\\ t = (\d+)', r.stdout)
            hard = re.search(r'OutOfMemory|out of memory|heap space', r.stdout)
            if at and not hard and re.search(r'The error occurred when TLC was evaluating|TLC threw an unexpected exception|Attempted to|StackOverflowError', r.stdout):
                a = at[-1]
                at = (int(a[0] or a[3]), int(a[1] or a[2]))
                m = re.search(r'Error: .*(?:\n.*){0,6}', r.stdout)
                self.notes.append('no value for event %d of trace %d: %s' % (at[1], at[0], m[0][:600] if m else ''))
                rej = sorted(set(rej + [at]))
                self.states += d
                self.transitions += g
                return rej, {'traces': n, 'events': sum(lens), 'states': d, 'transitions': g, 'wall_s': round(time.time() - t0, 1), 'lens': lens}
            m = re.findall(r'Error: .*(?:\n.*){0,8}', r.stdout)
            raise Broken('trace validation %s: %s\n%s' % (module, '\n'.join(m)[:6000], r.stdout[-2000:]))
        done = {t: l for t, l in rej}
        want = sum((done[i + 1] if i + 1 in done else lens[i] + 1) for i in range(n))
        if len(done) != len(rej) or d != want:
            raise Broken('trace validation %s: %d states for %d expected, %d rejections' % (module, d, want, len(rej)))
        self.states += d
        self.transitions += g
        return rej, {'traces': n, 'events': sum(lens), 'states': d, 'transitions': g, 'wall_s': round(time.time() - t0, 1), 'lens': lens}


def main():
    import checks
    pid = sys.argv[1]
    tier = sys.argv[2] if len(sys.argv) > 2 else os.environ.get('VERIF_TIER', 'quick')
    seed = int(os.environ.get('VERIF_SEED', '1') or 1)
    spec = checks.CHECKS[pid]
    t0 = time.time()
    work = tempfile.mkdtemp(prefix='vds_%s_' % pid)
    try:
        r = Run(pid, tier, seed, work)
        q = lambda a, b: a if tier == 'quick' else b
        ex = cf.ThreadPoolExecutor(8)
        jc = ex.submit(r.javac)
        mcs = [ex.submit(lambda m: (jc.result(), r.model_check(*m))[1], m) for m in spec.get('mc', lambda q: [])(q)]
        gb = ex.submit(r.gobuild, spec.get('race', False), spec.get('virtual', False), spec.get('server', False))
        plan = []
        gens = []
        for g in spec.get('gen', lambda q: [])(q):
            gens.append(r.generate(*g))
        for g in gens:
            plan += g
        drv = gb.result()
        jc.result()
        drives = [(s, ex.submit(r.drive, drv, s['scen'], plan or None)) for s in spec['traces']]
        results = []
        for s, f in drives:
            tdir, meta = f.result()
            rej, st = r.validate(s['module'], s.get('consts', {}), tdir, meta['ntraces'])
            results.append((s, tdir, meta, rej, st))
        mc = [m.result() for m in mcs]
        violations = []
        samples = []
        for s, tdir, meta, rej, st in results:
            for t, l in rej:
                lines = open(os.path.join(tdir, 't%d.ndjson' % t)).read().splitlines()[:l]
                violations.append((s, t, l, lines))
            for i in (1, st['traces']):
                lines = open(os.path.join(tdir, 't%d.ndjson' % i)).read().splitlines()
                samples.append({'trace': '%s/t%d' % (s['scen'], i), 'events': [x[:300] for x in lines[:3] + lines[-2:]]})
        cov = {
            'states': r.states + sum(m['states'] for m in mc),
            'transitions': r.transitions + sum(m['transitions'] for m in mc),
            'traces_validated_against_impl': sum(st['traces'] for *_, st in results),
            'trace_events': sum(st['events'] for *_, st in results),
            'model_checking': mc,
            'schedules_from_specification': len(plan),
            'validation': [{'module': s['module'], 'scenario': s['scen'], 'facets': s.get('consts', {}),
                            'driver': meta.get('stats', {}), **{k: v for k, v in st.items() if k != 'lens'}} for s, _, meta, _, st in results],
            'samples': samples,
        }
        if r.notes:
            cov['notes'] = r.notes
        known = load_known()
        fresh = []
        replay_dir = os.path.join(VERIF, 'replay', pid)
        for s, t, l, lines in violations:
            k = next((k for k in known if k['property'] == pid and re.search(k['match'], lines[-1])), None)
            if k:
                print('KNOWN-FINDING: property=%s %s' % (pid, k['what']))
                continue
            fresh.append((s, t, l, lines))
        for s, t, l, lines in fresh[:5]:
            os.makedirs(replay_dir, exist_ok=True)
            p = os.path.join(replay_dir, '%s-%s-seed%d-t%d-l%d.ndjson' % (s['scen'], tier, seed, t, l))
            open(p, 'w').write('\n'.join(lines) + '\n')
            print('rejected event: %s' % lines[-1][:600])
            print('VIOLATION property=%s replay=%s' % (pid, p))
        for n in r.notes:
            print(n)
        ev = {'property': pid, 'tier': tier, 'seed': seed, 'level': spec.get('level', 'model_checking'), 'coverage': cov,
              'assumptions': spec.get('assumptions', []) + checks.ASSUMPTIONS, 'wall_s': round(time.time() - t0, 1), 'violations': len(fresh)}
        os.makedirs(os.path.join(VERIF, 'evidence'), exist_ok=True)
        with open(os.path.join(VERIF, 'evidence', pid + '.json'), 'w') as f:
            json.dump(ev, f, indent=1)
        print('%s %s: %d traces, %d events, %d model states, %d rejected, %.0f s' % (
            pid, tier, cov['traces_validated_against_impl'], cov['trace_events'], sum(m['states'] for m in mc), len(violations), time.time() - t0))
        return 1 if fresh else 0
    except Broken as e:
        print('BROKEN', e)
        return 2
    finally:
        if os.environ.get('VERIF_KEEP'):
            print('kept', work)
        else:
            shutil.rmtree(work, ignore_errors=True)


def load_known():
    """Lines `known: property=ID match=REGEX what=TEXT` of known-findings.txt."""
    rv = []
    try:
        for l in open(os.path.join(VERIF, 'known-findings.txt')):
            m = re.match(r'known: property=(\S+) match=(\S+) what=(.*)', l)
            if m:
                rv.append({'property': m[1], 'match': m[2], 'what': m[3]})
    except FileNotFoundError:
        pass
    return rv


if __name__ == '__main__':
    sys.exit(main())
