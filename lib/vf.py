"""Shared framework of the checks: building nvc, running it, reporting."""
import os, sys, json, time, shutil, subprocess, signal, tempfile, hashlib
from concurrent.futures import ThreadPoolExecutor, ProcessPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
JOBS = int(os.environ.get('VERIF_JOBS', '8'))
KNOWN = os.path.join(VERIF, 'known_findings.txt')


class Res:
    def __init__(self, rc, out, timed_out, wall):
        self.rc, self.out, self.timed_out, self.wall = rc, out, timed_out, wall


def _limits(mem_mb):
    def f():
        import resource
        os.setsid()
        if mem_mb:
            resource.setrlimit(resource.RLIMIT_AS, (mem_mb << 20, mem_mb << 20))
        resource.setrlimit(resource.RLIMIT_CORE, (0, 0))
    return f


def run(argv, cwd=None, timeout=120, env=None, stdin=None, mem_mb=0, binary=False):
    t0 = time.time()
    e = dict(os.environ)
    for k in ('NVC_LIBPATH', 'NVC_COLORS', 'MAKEFLAGS', 'NVC_WORKLIB'):
        e.pop(k, None)
    e.update({'LANG': 'C.UTF-8', 'LC_ALL': 'C.UTF-8', 'COLUMNS': '400',
              'NVC_COLORS': 'never', 'NVC_COLOR': 'never'})
    if env:
        e.update(env)
    p = subprocess.Popen(argv, cwd=cwd, env=e, stdin=subprocess.PIPE if stdin is not None else subprocess.DEVNULL,
                         stdout=subprocess.PIPE, stderr=subprocess.STDOUT,
                         preexec_fn=_limits(mem_mb))
    to = False
    try:
        out, _ = p.communicate(stdin, timeout=timeout)
    except subprocess.TimeoutExpired:
        to = True
        try:
            os.killpg(p.pid, signal.SIGKILL)
        except ProcessLookupError:
            pass
        out, _ = p.communicate()
    if not binary:
        out = out.decode('utf-8', 'replace')
    return Res(p.returncode, out, to, time.time() - t0)


class Check:
    def __init__(self, pid, level):
        self.pid, self.level = pid, level
        self.tier = 'thorough' if ('--thorough' in sys.argv or
                                   os.environ.get('VERIF_TIER') == 'thorough') else 'quick'
        self.thorough = self.tier == 'thorough'
        self.seed = int(os.environ.get('VERIF_SEED', '1') or 1)
        self.t0 = time.time()
        self.violations = []
        self.known_hit = {}
        self.assumptions = []
        self.bld = None
        self.known = {}
        if os.path.exists(KNOWN):
            for line in open(KNOWN):
                if line.startswith('KNOWN-FINDING: '):
                    f = dict(x.split('=', 1) for x in line.split()[1:3])
                    if f.get('property') == pid:
                        self.known[f['key']] = line.split(None, 3)[3].strip()
        base = os.path.join(VERIF, '.work')
        os.makedirs(base, exist_ok=True)
        self.work = tempfile.mkdtemp(prefix=pid + '-', dir=base)
        self.evdir = os.path.join(VERIF, 'evidence')
        os.makedirs(self.evdir, exist_ok=True)
        self.repdir = os.path.join(self.evdir, 'replay', pid)
        shutil.rmtree(self.repdir, ignore_errors=True)
        self.log('tier=%s seed=%d' % (self.tier, self.seed))

    def log(self, msg):
        print('[%s %6.1fs] %s' % (self.pid, time.time() - self.t0, msg), flush=True)

    # -- building and running -------------------------------------------
    def build(self, mode='basic'):
        p = subprocess.run([os.path.join(VERIF, 'lib', 'build.sh'), mode],
                           stdout=subprocess.PIPE, env=dict(os.environ, VERIF_REPO=REPO))
        if p.returncode != 0:
            self.die('nvc does not build')
        self.bld = p.stdout.decode().strip().split('\n')[-1]
        self.libs = os.path.join(self.bld, 'full' if mode == 'full-preload' else 'lib')
        self.exe = os.path.join(self.bld, 'bin', 'nvc')
        self.src = os.path.join(os.path.dirname(self.bld), 'src')
        self.log('built ' + self.bld)
        return self.bld

    def nvc(self, args, cwd, std='2008', timeout=120, work=None, mem_mb=0, env=None, pre=()):
        a = [self.exe, '-L', self.libs, '--std=' + std] + list(pre)
        if work:
            a.append('--work=' + work)
        return run(a + list(args), cwd=cwd, timeout=timeout, mem_mb=mem_mb, env=env)

    def dir(self, name):
        d = os.path.join(self.work, name)
        os.makedirs(d, exist_ok=True)
        return d

    def pmap(self, fn, items, jobs=None):
        with ThreadPoolExecutor(jobs or JOBS) as ex:
            return list(ex.map(fn, items))

    # -- reporting ------------------------------------------------------
    def die(self, msg):
        print('ERROR: ' + msg, flush=True)
        shutil.rmtree(self.work, ignore_errors=True)
        sys.exit(2)

    def violation(self, key, text, files=None):
        """key: stable identification of what fails (matched with known findings)."""
        if key in self.known:
            if key not in self.known_hit:
                self.known_hit[key] = text
                print('KNOWN-FINDING: property=%s %s' % (self.pid, self.known[key]), flush=True)
            return
        n = len(self.violations)
        if n >= int(os.environ.get("VERIF_MAXV", "20")):
            self.violations.append(None)
            return
        d = os.path.join(self.repdir, '%02d' % n)
        os.makedirs(d, exist_ok=True)
        with open(os.path.join(d, 'what.txt'), 'w') as f:
            f.write('key: %s\n%s\n' % (key, text))
        for name, data in (files or {}).items():
            if isinstance(data, tuple) and data[0] == 'copy':
                try:
                    shutil.copy(data[1], os.path.join(d, name))
                except OSError:
                    pass
            else:
                with open(os.path.join(d, name), 'wb' if isinstance(data, bytes) else 'w') as f:
                    f.write(data)
        self.violations.append(key)
        print('  ' + text.replace('\n', '\n  ')[:3000])
        print('VIOLATION property=%s replay=%s' % (self.pid, d), flush=True)

    def finish(self, coverage, assumptions=()):
        ev = {'property': self.pid, 'tier': self.tier, 'seed': self.seed, 'level': self.level,
              'coverage': coverage, 'assumptions': list(assumptions) + self.assumptions,
              'wall_s': round(time.time() - self.t0, 2), 'violations': len(self.violations)}
        tmp = os.path.join(self.evdir, self.pid + '.json.tmp')
        with open(tmp, 'w') as f:
            json.dump(ev, f, indent=1)
        os.replace(tmp, os.path.join(self.evdir, self.pid + '.json'))
        if not os.environ.get('VERIF_KEEP'):
            shutil.rmtree(self.work, ignore_errors=True)
        brief = {k: v for k, v in coverage.items() if isinstance(v, (int, bool))}
        self.log('%s %s violations=%d' % ('FAIL' if self.violations else 'ok', brief, len(self.violations)))
        sys.exit(1 if self.violations else 0)


def main(fn):
    """Run a check body; any internal exception is an error (exit 2), not a verdict."""
    try:
        fn()
    except SystemExit:
        raise
    except BaseException:
        import traceback
        traceback.print_exc()
        sys.exit(2)
