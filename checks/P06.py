"""P06: results do not depend on how the design is executed.

Enumeration: every execution configuration of a finite set (interpreter,
just-in-time code from the first call, ahead-of-time code at each optimisation
level, signal collapsing on and off, coverage collection, waveform dumping,
elaborated design saved and loaded again by another run, and combinations)
applied to every program of two families:
1. all nestings of the constructs that create declarative regions with every
   kind of declaration (the family of P27), whose exact output is known;
2. every program of the regression corpus that needs no plugin or script; the
   output, messages and exit status of the configurations are compared.
Messages are compared as multisets of lines: processes that are resumed in the
same cycle may run in any order.  Call traces are not compared (code that is
inlined or folded has no frame), nor is what only one configuration says about
itself (debug output, notes on what a waveform format cannot show).
"""
import os, re, sys, shutil, collections, importlib.util
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import vf

INT = {'NVC_JIT_THRESHOLD': '0'}
JIT = {'NVC_JIT_THRESHOLD': '1', 'NVC_JIT_ASYNC': '0'}
J = ['--jit', '--no-save']
# name: elaboration options, run options, environment, separate invocations
MODES = {
    'interpreter': (J, [], INT, False),
    'jit': (J, [], JIT, False),
    'aot': ([], [], {}, False),
    'no-collapse': (J + ['--no-collapse'], [], INT, False),
    'cover': (J + ['--cover'], [], INT, False),
    'wave': (J, ['--wave=w.fst', '--dump-arrays'], INT, False),
    'saved': (['--jit'], [], INT, True),
}
THOROUGH = {
    'aot0': (['-O0'], [], {}, False),
    'aot1': (['-O1'], [], {}, False),
    'aot3': (['-O3'], [], {}, False),
    'saved-aot': ([], [], {}, True),
    'jit-async': (J, [], {'NVC_JIT_THRESHOLD': '2'}, False),
    'no-intrinsics': (J, [], dict(INT, NVC_JIT_INTRINSICS='0'), False),
    'vcd': (J, ['--wave=w.vcd', '--format=vcd'], INT, False),
    'cover-jit-no-collapse': (J + ['--cover', '--no-collapse'], [], JIT, False),
    'wave-aot-no-collapse': (['--no-collapse'], ['--wave=w.fst', '--dump-arrays'], {}, False),
    'cover-aot-saved': (['--cover'], [], {}, True),
    'wave-saved-jit': (['--jit'], ['--wave=w.fst'], JIT, True),
}
# programs that print the time of day, names of files in the directory or
# memory statistics, or that report from a function folded at elaboration
SKIP = {'stdenv1', 'stdenv5', 'stdenv6', 'access10', 'array18'}


def norm(o):
    o = re.sub(r'\*\* Debug:.*\n((  +[>|=]| *\d+ \|).*\n)*', '', o)
    o = re.sub(r'\*\* Warning: (cannot represent|no FST|no VCD).*\n((  +[>|=]| *\d+ \|).*\n)*', '', o)
    o = re.sub(r'0x[0-9a-f]+', '0x', o)
    o = re.sub(r'\S*/(?=[\w.-]+\.vhdl?:\d)', '', o)
    o = re.sub(r'/\S*/P06-\w+/[\w-]+', '', o)
    return [l for l in o.splitlines() if l.strip() and not re.match(r'   (Function|Procedure|Process|Signal|Component|Package|Protected) ', l)]


def corpus(src):
    R = os.path.join(src, 'test', 'regress')
    progs = []
    if not os.path.isdir(R):
        return progs
    for l in open(R + '/testlist.txt'):
        l = l.split('#')[0].split()
        if len(l) < 2 or l[0] in SKIP:
            continue
        n, fl = l[0], l[1].split(',')
        f = set(x.split('=')[0] for x in fl)
        if not f <= {'normal', 'gold', 'fail', '2000', '2002', '2008', '2019', 'verilog', 'psl', 'relaxed', 'relax', 'stop', 'O0', 'O2', 'no-collapse'}:
            continue
        std = '1993'
        for s in ('2000', '2002', '2008', '2019'):
            if s in f:
                std = s
        a = (['--relaxed'] if 'relaxed' in f or 'relax' in f else []) + (['--psl'] if 'psl' in f else [])
        ra = ['--stop-time=' + x[5:] for x in fl if x.startswith('stop=')]
        path = '%s/%s%s' % (R, n, '.v' if 'verilog' in f else '.vhd')
        if os.path.exists(path):
            progs.append((n, std, a, path, ra))
    return progs


def main():
    c = vf.Check('P06', 'model_checking')
    c.build('full-preload' if c.thorough else 'basic')
    modes = dict(MODES)
    if c.thorough:
        modes.update(THOROUGH)
    cov = collections.Counter()

    # family 1
    sp = importlib.util.spec_from_file_location('p27', os.path.join(HERE, 'P27.py'))
    p27 = importlib.util.module_from_spec(sp)
    sp.loader.exec_module(p27)
    for m, (ea, ra, env, sep) in modes.items():
        if m == 'interpreter':
            continue

        def run_lines(c, d, text, top, args=(), rargs=(), std='2008', pre=()):
            with open(os.path.join(d, 'd.vhd'), 'w') as f:
                f.write(text)
            if sep:
                r = c.nvc(['-a', 'd.vhd', '-e'] + ea + [top], d, std=std, env=env, timeout=300)
                if r.rc == 0:
                    r = c.nvc(['-r'] + ra + [top], d, std=std, env=env, timeout=300)
            else:
                r = c.nvc(['-a', 'd.vhd', '-e'] + ea + [top, '-r'] + ra + [top], d, std=std, env=env, timeout=300)
            return r, sorted(x.group(1) for x in re.finditer(r'Note: [^@\n]*(@[^\n]*)', r.out))
        p27.run_lines = run_lines
        viol = c.violation
        c.violation = lambda key, text, files=None, m=m: viol(m + ':' + key, 'configuration %s: %s' % (m, text), files)
        p, n = p27.part_nest(c, part=1 if c.thorough else {'jit': 16, 'aot': 8}.get(m, 3))
        c.violation = viol
        cov['nested programs'] += p
        cov['instances'] += n
        c.log('%s: %d nested programs, %d instances' % (m, p, n))

    # family 2
    progs = corpus(vf.REPO)

    def run(p, m):
        n, std, a, path, ra = p
        ea, rr, env, sep = modes[m]
        d0 = c.dir('%s-%s' % (n, m))
        d = d0 + '/w'
        os.mkdir(d)
        if sep:
            r = c.nvc(['-a'] + a + [path], d, std=std, env=env)
            o = r.out
            if r.rc == 0:
                r = c.nvc(['-e'] + ea + [n], d, std=std, env=env)
                o += r.out
            if r.rc == 0:
                r = c.nvc(['-r'] + ra + rr + [n], d, std=std, env=env)
                o += r.out
        else:
            r = c.nvc(['-a'] + a + [path, '-e'] + ea + [n, '-r'] + ra + rr + [n], d, std=std, env=env)
            o = r.out
        shutil.rmtree(d0)
        return r, o

    base = {}

    def one(p):
        out = {}
        ieee = re.search(r'\bieee\b|`include|\bstd_logic', open(p[3], errors='replace').read(), re.I)
        for m in modes:
            if 'aot' in m and ieee and not c.thorough:
                continue  # the build of the quick check has no compiled IEEE library
            r, o = run(p, m)
            if r.rc == 127 and 'symbol lookup error' in o and ieee:
                continue
            out[m] = (r.rc, collections.Counter(norm(o)))
            cov['runs'] += 1
            if m == 'interpreter':
                if r.timed_out:
                    return
                continue
            b = out['interpreter']
            if out[m] != b:
                r2, o2 = run(p, 'interpreter')
                if (r2.rc, collections.Counter(norm(o2))) != b:
                    cov['not repeatable'] += 1
                    continue
                miss = list((b[1] - out[m][1]).elements())[:3]
                extra = list((out[m][1] - b[1]).elements())[:3]
                key = p[0] if p[0] == 'issue831' else '%s:%s' % (m, p[0])
                c.violation(key, '%s gives a different result with configuration %s: status %d and %d, missing %s, extra %s' % (p[0], m, b[0], r.rc, miss, extra), {'out-interpreter.txt': o2, 'out-%s.txt' % m: o})
    c.pmap(one, progs)
    cov['corpus programs'] = len(progs)
    cov['configurations'] = len(modes)
    c.finish(dict(cov), ['processes of one cycle may run in any order; call traces are not compared'])


vf.main(main)
