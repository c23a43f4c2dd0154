"""P15: an interrupted save leaves the library usable.

Model: a library is a map from unit names to versions.  A command that saves
units U takes every unit in U from its old to its new version, each at one
instant; death or failure at any point leaves each unit old or new.

Enumeration: every file system operation (create, write, rename, unlink,
mkdir, truncate) nvc makes below the library directory is a crash point: nvc
is killed just before it, after part of a write (torn writes of 0/8, 1/8, 4/8,
7/8 and 8/8 of its bytes), or the operation fails with ENOSPC, EIO and so on,
or writes fewer bytes than asked.  After each the library is examined by
fresh runs of nvc: every unit must read as its old or its new version in
full, and repeating the command must give the new version of all.
Concurrency: two analyses into one library, every schedule in which the first
is suspended before each of its operations, the second before each of its
own, must end with both sets of units.
"""
import os, re, sys, errno, shutil, subprocess, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

LCG = 12345


def noise(n, seed):
    x, out = seed * 7919 + LCG, []
    for _ in range(n):
        x = (x * 1103515245 + 12345) & 0x7fffffff
        out.append('abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789+-'[(x >> 16) & 63])
    return ''.join(out)


def big(v, k, n):
    return '\n'.join('  constant big%d_%d : string := "%s%d";' % (k, i, noise(120, v * 1000 + i), v) for i in range(n))


def pkg(v, n):
    return '''package p is
  constant k : integer := %d;
%s
  function f return integer;
end package;
package body p is
  function f return integer is
  begin
    return %d;
  end function;
end package body;
''' % (v, big(v, 0, n), v)


def ent(v, n):
    return '''entity e is
  generic (g : integer := %d);
end entity;
architecture a of e is
%s
begin
  process begin
    report "E=" & integer'image(g) & " A=%d";
    wait;
  end process;
end architecture;
''' % (v, big(v, 1, n), v)


def top(v):
    return '''entity t is end entity;
use work.p.all;
architecture a of t is
begin
  u : entity work.e;
  process begin
    report "K=" & integer'image(k) & " F=" & integer'image(f) & " T=%d";
    wait;
  end process;
end architecture;
''' % v


def solo(name, v, n=0):
    return '''package %s is
%s
  constant c : integer := %d;
end package;
''' % (name, big(v, 2, n), v)


def vlog(v):
    return '''module m;
  reg [31:0] x;
  initial begin
    x = %d;
    $display("M=%%d", x);
  end
endmodule
''' % v


UNITS = {'P': ('p',), 'P-body': ('p',), 'E': ('e',), 'E-A': ('e',), 'T': ('t',), 'T-A': ('t', 'p', 'e'), 'Q': ('q',), 'M': ('m',)}
REFUSE = re.compile(r'design unit depends on \S+ with checksum|depends on an obsolete version|depends on .* which has been|usually means .* outdated|not found in library|cannot find|has not been elaborated|not elaborated|depends on')
CRASH = re.compile(r'Assertion|Signal|Caught|Please report|corrupt|stack trace|not an NVC|unexpected|checksum mismatch|unknown|bad|was not|invalid', re.I)


def main():
    c = vf.Check('P15', 'fault_injection')
    c.build()
    tool = c.dir('tool') + '/fstrace'
    here = os.path.dirname(os.path.abspath(__file__))
    if subprocess.run(['gcc', '-O1', '-o', tool, here + '/../lib/tools/fstrace.c']).returncode:
        c.die('fstrace does not compile')
    src = c.dir('src')
    for v in (1, 2):
        for nm, tx in (('p', pkg(v, 12)), ('e', ent(v, 60)), ('t', top(v)), ('q', solo('q', v)), ('x', solo('x', v)), ('y', solo('y', v, 3))):
            open('%s/%s%d.vhd' % (src, nm, v), 'w').write(tx)
        open('%s/m%d.v' % (src, v), 'w').write(vlog(v))
    S = lambda *a: [src + '/' + x for x in a]

    def cmd(*a):
        return ['-a'] + S(*a)
    JIT = ['-e', '--jit', 't']
    AOT = ['-e', 't']
    COV = ['-e', '--jit', '--cover', 't']
    everything = ['P', 'P-body', 'E', 'E-A', 'T', 'T-A']
    # name, commands to prepare, the interrupted command, units it replaces, units that exist
    scen = [
        ('create', [], cmd('q1.vhd'), ['Q'], []),
        ('create-many', [], cmd('p1.vhd', 'e1.vhd', 't1.vhd'), everything, []),
        ('replace', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), cmd('q1.vhd')], cmd('p2.vhd', 'e2.vhd', 't2.vhd'), everything, everything + ['Q']),
        ('replace-one', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), cmd('q1.vhd')], cmd('e2.vhd'), ['E', 'E-A'], everything + ['Q']),
        ('add', [cmd('q1.vhd')], cmd('p1.vhd'), ['P', 'P-body'], ['Q']),
        ('verilog', [cmd('m1.v'), cmd('q1.vhd')], cmd('m2.v'), ['M'], ['M', 'Q']),
        ('elab', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), cmd('q1.vhd')], JIT, ['elab'], everything + ['Q']),
        ('re-elab', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), JIT, cmd('p2.vhd', 'e2.vhd', 't2.vhd')], JIT, ['elab'], everything),
        ('re-elab-cover', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), COV, cmd('p2.vhd', 'e2.vhd', 't2.vhd')], COV, ['elab'], everything),
        ('elab-aot', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), cmd('q1.vhd')], AOT, ['elab'], everything + ['Q']),
        ('re-elab-aot', [cmd('p1.vhd', 'e1.vhd', 't1.vhd'), AOT, cmd('p2.vhd', 'e2.vhd', 't2.vhd')], AOT, ['elab'], everything),
    ]

    def nvc(lib, args, pre=None, timeout=60):
        a = [c.exe, '-L', c.libs, '--std=2008', '--work=work:' + lib, '--ignore-time'] + args
        return vf.run((pre or []) + a, cwd=os.path.dirname(lib), timeout=timeout)

    def dump(lib, u):
        if u == 'elab':
            r = nvc(lib, ['-r', 't'])
        else:
            r = nvc(lib, ['--dump', '-b', u[:-5]] if u.endswith('-body') else ['-e', '--jit', '--no-save', 'm', '-r'] if u == 'M' else ['--dump', u])
        return r.rc, re.sub(r'0x[0-9a-f]+', '', re.sub(r'.*Warning: directory .* already exists and is not an NVC library\n', '', r.out))

    def look(lib, units):
        return {u: dump(lib, u) for u in units}

    total = [0]
    points = [0]
    samples = []

    def judge(what, u, got, old, new):
        """None if the unit is old, new or (its dependencies changed) refused."""
        rc, out = got
        if got == new or got == old:
            return None
        dep = u in ('T-A', 'P-body', 'E-A', 'elab')
        if rc == 1 and dep and REFUSE.search(out) and not CRASH.search(re.sub(r'/\S+', '', REFUSE.sub('', out))):
            return None
        if u == 'elab' and rc == 1 and re.search(r'not elaborated|not found|cannot find|no such|missing body for WORK', out, re.I):
            return None
        return '%s: unit %s is neither the old nor the new version: status %d: %s' % (what, u, rc, out[-400:])

    def prepare(name, prep):
        d = c.dir('s-' + name)
        lib = d + '/work'
        for a in prep:
            r = nvc(lib, a)
            if r.rc:
                c.die('%s: preparation failed: %s' % (name, r.out[-500:]))
        return d, lib

    if not c.thorough:
        scen = [x for x in scen if x[0] != 'elab-aot']

    def scenario(sc):
        name, prep, com, changed, exist = sc
        d, lib = prepare(name, prep)
        units = sorted(set(changed) | set(exist))
        old = look(lib, units) if os.path.isdir(lib) else {u: (1, '') for u in units}
        g = d + '/good'
        os.makedirs(g)
        if os.path.isdir(lib):
            shutil.copytree(lib, g + '/work')
        # library paths appear in messages: always work in a directory called work below a fresh one
        ev = g + '/events'
        with open(ev, 'w') as f:
            p = subprocess.run('exec 9>%s; exec "$@"' % ev, shell=True) if False else None
        r = vf.run(['/bin/bash', '-c', 'exec 9>"$0"; exec "$@"', ev, tool, g + '/work', 'list', '--', c.exe, '-L', c.libs, '--std=2008', '--work=work:' + g + '/work', '--ignore-time'] + com, cwd=g)
        if r.rc:
            c.die('%s: %s' % (name, r.out[-600:]))
        ops = [l.split() for l in open(ev)]
        new = look(g + '/work', units)
        if any(new[u][0] for u in changed):
            c.die('%s: cannot read the new library: %s' % (name, [(u, new[u][1][-300:]) for u in changed if new[u][0]]))
        absent = {u for u in units if not os.path.isdir(lib) or u not in exist and u != 'elab'}
        pts = []
        for k, op in enumerate(ops):
            pts.append(['kill', str(k)])
            kind = op[1]
            if name.endswith('aot') and not c.thorough:
                if kind == 'write' and not op[2].endswith('.o'):
                    pts.append(['torn', str(k), '4'])
                continue
            if kind == 'write':
                for n in (1, 4, 7, 8) if c.thorough else (4, 8):
                    pts.append(['torn', str(k), str(n)])
                for n in (0, 4, 7) if c.thorough else (0, 7):
                    pts.append(['short', str(k), str(n)])
                for e in (errno.ENOSPC, errno.EIO) if c.thorough else (errno.ENOSPC,):
                    pts.append(['fail', str(k), str(e)])
            else:
                for e in {'create': (errno.ENOSPC, errno.EACCES, errno.EMFILE)[:3 if c.thorough else 1], 'rename': (errno.EIO,), 'mkdir': (errno.ENOSPC,), 'unlink': (errno.EIO,)}.get(kind, (errno.EIO,)):
                    pts.append(['fail', str(k), str(e)])
        return name, d, lib, com, changed, units, old, new, absent, ops, pts

    sc = [scenario(x) for x in scen]
    jobs = [(s, p) for s in sc for p in s[10]]
    c.log('%d scenarios, %d crash and fault points' % (len(sc), len(jobs)))

    def one(job):
        (name, d, lib, com, changed, units, old, new, absent, ops, pts), pt = job
        w = '%s/%s' % (d, '-'.join(pt))
        os.makedirs(w)
        l = w + '/work'
        if os.path.isdir(lib):
            shutil.copytree(lib, l)
        bad = []
        what = '%s, %s at operation %s (%s)' % (name, ' '.join(pt), pt[1], ' '.join(ops[int(pt[1])][1:]))
        fix = lambda m: {u: (v[0], v[1].replace(d + '/good', w).replace(d + '/work', w + '/work')) for u, v in m.items()}
        o, n = fix(old), fix(new)
        r = nvc(l, com, [tool, l] + pt + ['--'])
        if r.timed_out:
            bad.append('%s: does not terminate' % what)
        if pt[0] in ('kill', 'torn') and r.rc != 137:
            if not (name.endswith('aot')):
                bad.append('%s: the operations are not repeatable (status %d)' % (what, r.rc))
        if pt[0] in ('fail', 'short') and r.rc not in (0, 1):
            bad.append('%s: exit status %d: %s' % (what, r.rc, r.out[-400:]))
        have = {u: dump(l, u) for u in units} if os.path.isdir(l) else {}
        for u in have:
            rc, out = have[u]
            if u in absent:
                if have[u] != n[u] and not (rc == 1 and re.search(r'not found|cannot find|could not find|no such|not analysed', out, re.I)) and not (u in ('T-A', 'P-body', 'E-A') and rc == 1 and REFUSE.search(out)):
                    bad.append('%s: new unit %s is neither absent nor complete: status %d: %s' % (what, u, rc, out[-400:]))
            else:
                m = judge(what, u, have[u], o[u], n[u])
                if m:
                    bad.append(m)
            if r.rc == 0 and have[u] != n[u]:
                bad.append('%s: the command succeeded but unit %s is not the new version: %s' % (what, u, out[-300:]))
        if pt[0] in ('fail', 'short') and r.rc == 1 and not re.search(r'\*\* (Fatal|Error)|LLVM ERROR', r.out):
            bad.append('%s: failed without a message' % what)
        # recovery
        r2 = nvc(l, com)
        if r2.rc:
            bad.append('%s: repeating the command fails: %s' % (what, r2.out[-400:]))
        else:
            again = look(l, units)
            for u in units:
                if again[u] != n[u]:
                    bad.append('%s: after repeating the command unit %s is not the new version: %s' % (what, u, again[u][1][-300:]))
        shutil.rmtree(w, ignore_errors=True)
        return bad, {'crash': what}
    for bad, s in c.pmap(one, jobs):
        for m in bad[:2]:
            c.violation('crash', m)

    # two analyses at the same time
    pairs = [('same-new', [], ['x1.vhd'], ['y1.vhd']),
             ('different', [cmd('q1.vhd')], ['x1.vhd'], ['y1.vhd']),
             ('same-unit', [cmd('x1.vhd')], ['x2.vhd'], ['x1.vhd']),
             ('replace-add', [cmd('x1.vhd'), cmd('q1.vhd')], ['x2.vhd'], ['y1.vhd'])]
    if c.thorough:
        pairs += [('many', [cmd('q1.vhd')], ['p1.vhd', 'e1.vhd'], ['x1.vhd', 'y1.vhd']), ('many-new', [], ['p1.vhd', 'x1.vhd'], ['e1.vhd', 'y1.vhd'])]
    sj = []
    for name, prep, a, b in pairs:
        d, lib = prepare('c-' + name, prep)
        w = d + '/probe'
        os.makedirs(w)
        if os.path.isdir(lib):
            shutil.copytree(lib, w + '/work')
        nv = lambda l, x: [c.exe, '-L', c.libs, '--std=2008', '--work=work:' + l, '--ignore-time'] + cmd(*x)
        r = vf.run(['/bin/bash', '-c', 'exec 9>"$0"; exec "$@"', w + '/ev', tool, w + '/work', 'sched', '9999', '9999', '--'] + nv(w + '/work', a) + ['--'] + nv(w + '/work', b), cwd=w)
        n = len([l for l in open(w + '/ev') if l[0].isdigit()])
        if r.rc:
            c.die('schedule probe: %s' % r.out[-300:])
        na = n // 2 + 4
        for k, j in itertools.product(range(na), list(range(0, na)) + [9999]):
            sj.append((name, d, lib, a, b, k, j))
    c.log('%d schedules of two processes' % len(sj))

    def sched(job):
        name, d, lib, a, b, k, j = job
        w = '%s/%d-%d' % (d, k, j)
        os.makedirs(w)
        l = w + '/work'
        if os.path.isdir(lib):
            shutil.copytree(lib, l)
        nv = lambda x: [c.exe, '-L', c.libs, '--std=2008', '--work=work:' + l, '--ignore-time'] + cmd(*x)
        r = vf.run(['/bin/bash', '-c', 'exec 9>"$0"; exec "$@"', w + '/ev', tool, l, 'sched', str(k), str(j), '--'] + nv(a) + ['--'] + nv(b), cwd=w, timeout=60)
        bad = []
        what = 'schedule %s: %s up to operation %d, %s up to operation %d' % (name, a, k, b, j)
        ev = open(w + '/ev').read()
        m = re.search(r'status (-?\d+) (-?\d+)', ev)
        if r.rc or not m or m.group(1) != '0' or m.group(2) != '0':
            bad.append('%s: exit status %s, %s: %s' % (what, r.rc, m.group(0) if m else '-', r.out[-400:]))
        else:
            t = ['x', 'y', 'q', 'p', 'e']
            names = {x[0] for x in a + b} | ({'q', 'x'} & {os.path.basename(p)[0] for pr in dict((x[0], x[1]) for x in pairs)[name] for p in pr[1:]})
            use = ' '.join('use work.%s;' % n for n in sorted(names) if n in 'xyqp')
            # "all" goes through the index of the library
            open(w + '/use.vhd', 'w').write('use work.all;\npackage zz is\n%s\nend package;\n' % '\n'.join('  constant k%s : integer := %s.%s;' % (n, n, 'k' if n == 'p' else 'c') for n in sorted(names) if n in 'xyqp'))
            r2 = nvc(l, ['-a', w + '/use.vhd'])
            if r2.rc:
                bad.append('%s: units are missing afterwards: %s' % (what, r2.out[-500:]))
            if 'e' in names:
                r2 = nvc(l, ['-e', '--jit', '--no-save', 'e', '-r'])
                if r2.rc or 'A=1' not in r2.out:
                    bad.append('%s: entity e unusable: %s' % (what, r2.out[-500:]))
        shutil.rmtree(w, ignore_errors=True)
        return bad
    for bad in c.pmap(sched, sj):
        for m in bad[:2]:
            c.violation('concurrent', m)
    n = len(jobs) + len(sj)
    c.finish({'crash_points': len(jobs), 'schedules': len(sj), 'states': n, 'transitions': sum(len(s[9]) for s in sc), 'traces_validated_against_impl': n, 'exhaustive': True,
              'samples': ['%s: %s' % (s[0], [' '.join(o[1:3]) for o in s[9]][:12]) for s in sc][:6]},
             ['a crash is the death of the process, not of the machine: completed operations are durable',
              'the model of a file system operation is that of the kernel of this sandbox'])


if __name__ == '__main__':
    vf.main(main)
