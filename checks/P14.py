#!/usr/bin/env python3
"""P14: a damaged library file is reported, never used.

Each file of a small library (units, package bodies, index, library marker,
elaborated design and packed code) is damaged at every byte with several
patterns, cut at every length, and has its tail from every offset lost to
zeros; a fresh nvc then loads the library.  It must stop with a message and
failure status, or behave as with the undamaged library (damage in a byte that
is not used)."""
import os, sys, shutil, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

SRC = '''package p is
  constant k : integer := 42;
  type rec is record x, y : integer; end record;
  function f(x : integer) return integer;
end package;
package body p is
  function f(x : integer) return integer is begin return x * 3 + k; end function;
end package body;
use work.p.all;
entity q is generic (g : string := "ab"); end entity;
architecture a of q is
  signal s : rec := (1, 2);
begin
  process
  begin
    s.x <= f(s.y);
    wait for 1 ns;
    report "x = " & integer'image(s.x) & g severity note;
    assert s.y = 2 report "bad y" severity failure;
    wait;
  end process;
end architecture;
'''


def main():
    c = vf.Check('P14', 'fault_enumeration')
    c.build()
    src = c.dir('src')
    open(src + '/q.vhd', 'w').write(SRC)
    r = c.nvc(['-a', 'q.vhd', '-e', '--jit', 'q'], src)
    if r.rc:
        c.die('cannot elaborate: ' + r.out)
    lib = src + '/work'
    CMDS = {'elab': ['--ignore-time', '-e', '--jit', '--no-save', 'q', '-r'], 'run': ['--ignore-time', '-r', 'q'],
            'analyse': ['--ignore-time', '-a', 'more.vhd'], 'list': ['--ignore-time', '--list']}
    open(src + '/more.vhd', 'w').write('use work.p.all; package p2 is constant j : integer := k + 1; end package;')
    USE = {'WORK.P': ['elab', 'analyse', 'run'], 'WORK.P-body': ['elab'], 'WORK.Q': ['elab'], 'WORK.Q-A': ['elab'], 'WORK.Q.elab': ['run'],
           '_WORK.Q.elab.pack': ['run'], '_index': ['elab', 'list', 'analyse'], '_NVC_LIB': ['elab']}
    files = sorted(os.listdir(lib))
    for f in files:
        if f not in USE:
            c.die('unexpected library file ' + f)
    missing = [f for f in USE if f not in files]
    if missing:
        c.die('missing library files %s' % missing)
    orig = {f: open(lib + '/' + f, 'rb').read() for f in files}

    def clean(o):
        return re.sub(r'/\S*/', '', o)
    base = {}
    for k, a in CMDS.items():
        d = c.dir('base-' + k)
        shutil.copytree(lib, d + '/work')
        shutil.copy(src + '/more.vhd', d)
        shutil.copy(src + '/q.vhd', d)
        r = c.nvc(a, d)
        if r.rc:
            c.die('undamaged library, %s: %s' % (k, r.out))
        base[k] = clean(r.out)
    faults = []
    for f in files:
        b = orig[f]
        n = len(b)
        for cmd in (USE[f] if c.thorough else USE[f][:1] if f[0] != '_' and f != 'WORK.P' else USE[f]):
            pats = [0x01, 0xc0] if not c.thorough else [0x01, 0x02, 0x04, 0x08, 0x10, 0x20, 0x40, 0x80, 0xff, 0x55, None]
            if cmd != USE[f][0] and not c.thorough:
                pats = [0xff]
            for i in range(n):
                for p in pats:
                    v = 0 if p is None else b[i] ^ p
                    if v != b[i]:
                        faults.append((f, cmd, 'byte %d %02x -> %02x' % (i, b[i], v), b[:i] + bytes([v]) + b[i + 1:]))
                if cmd == USE[f][0] or c.thorough:
                    faults.append((f, cmd, 'cut to %d bytes' % i, b[:i]))
                    z = b[:i] + bytes(n - i)
                    if z != b and (c.thorough or i % 4 == 0):
                        faults.append((f, cmd, 'zeros from byte %d' % i, z))
            faults.append((f, cmd, 'one byte appended', b + b'\\0'))
            faults.append((f, cmd, 'doubled', b + b))
            for g in files:
                if g != f and (c.thorough or f[0] != '_' or g[0] != '_'):
                    faults.append((f, cmd, 'replaced by ' + g, orig[g]))
            faults.append((f, cmd, 'removed', None))
    c.log('%d faults' % len(faults))
    import threading
    loc = threading.local()
    dirs = []

    def one(ft):
        f, cmd, what, data = ft
        d = getattr(loc, 'd', None)
        if d is None:
            d = loc.d = c.dir('w%d' % threading.get_ident())
            shutil.copy(src + '/more.vhd', d)
            shutil.copy(src + '/q.vhd', d)
            shutil.copytree(lib, d + '/work')
            dirs.append(d)
        w = d + '/work'
        for g in os.listdir(w):
            if g not in orig:
                os.unlink(w + '/' + g)
        for g in orig:
            if g == f or g == '_index' or g == '_NVC_LIB' or not os.path.exists(w + '/' + g):
                if g == f and data is None:
                    if os.path.exists(w + '/' + g):
                        os.unlink(w + '/' + g)
                else:
                    with open(w + '/' + g, 'wb') as h:
                        h.write(data if g == f else orig[g])
        r = c.nvc(CMDS[cmd], d, timeout=60, mem_mb=6000)
        with open(w + '/' + f, 'wb') as h:
            h.write(orig[f])
        o = clean(r.out)
        if r.timed_out:
            return 'hang', 'no answer in 60 s'
        if r.rc < 0 or r.rc > 1 or 'Caught' in o or 'Assertion' in o or '[0x' in o or 'runtime error' in o:
            return 'crash', 'rc=%d %s' % (r.rc, o[:600])
        if r.rc == 1:
            return ('ok', '') if '** Fatal' in o or '** Error' in o else ('silent', 'fails without a message: ' + o[:300])
        if o == base[cmd]:
            return 'same', ''
        if data is None or f == '_index' and '** Warning: ignoring library index' in o:
            return 'same', ''
        return 'used', 'exit status 0 but different output:\n' + o[:600]
    res = c.pmap(one, faults)
    stat = {}
    seen = {}
    for (f, cmd, what, data), (k, text) in zip(faults, res):
        stat[k] = stat.get(k, 0) + 1
        if k not in ('ok', 'same'):
            kind = re.sub(r'\d+|[0-9a-f]{2} ->.*', '', what).strip()
            key = '%s:%s:%s:%s' % (k, f, cmd, kind.replace(' ', '_'))
            seen[key] = seen.get(key, 0) + 1
            if seen[key] == 1:
                c.violation(key, '%s of %s, then nvc %s: %s' % (what, f, ' '.join(CMDS[cmd]), text),
                            {'damaged-' + f: data or b'', 'q.vhd': SRC})
    if os.environ.get('VERIF_ALL'):
        print(stat, seen)
    c.finish({'fault_points': len(faults), 'states': len(faults), 'reported': stat.get('ok', 0), 'no_effect': stat.get('same', 0),
              'exhaustive': True, 'files': {f: len(b) for f, b in orig.items()}},
             ['damage of a native shared library is left to the dynamic loader and not explored',
              'a damaged byte that leaves the behaviour unchanged is accepted'])


if __name__ == '__main__':
    vf.main(main)
