#!/usr/bin/env python3
"""P05: force overrides and release restores a signal.

Every sequence of up to 3 (thorough 4) operations (force, release and drive of
the whole signal, an element and a slice, with and without delay) with every
gap (same cycle, one delta, one ns) is executed on a fresh signal, so that the
signal is split at every possible point, and in one long walk; the value seen
after every step inside, through ports and through the hierarchy is compared
with the definition."""
import os, sys, struct, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

# operation: (kind, elements, value bits for these elements, delay in ns)
OPS = [('F', (0, 1, 2), (1, 1, 1), 0), ('F', (0, 1, 2), (0, 1, 0), 0), ('F', (0,), (1,), 0), ('F', (0,), (0,), 0), ('F', (1, 2), (1, 0), 0),
       ('R', (0, 1, 2), None, 0), ('R', (0,), None, 0), ('R', (1, 2), None, 0),
       ('D', (0, 1, 2), (1, 0, 1), 0), ('D', (1,), (1,), 0), ('D', (0, 1, 2), (0, 1, 1), 1), ('D', (0, 1), (1, 0), 1)]
GAP = ['', ' wait for 0 ns;', ' wait for 1 ns;']
SMALL = [1, 2, 4, 5, 6, 8, 10, 11]

# variant: type, literal bit, extra drivers, where the signal is forced
STD = 'UX01ZWLH-'
RES = ['UUUUUUUUU', 'UXXXXXXXX', 'UX0X0000X', 'UXX11111X', 'UX01ZWLHX', 'UX01WWWWX', 'UX01LWLWX', 'UX01HWWHX', 'UXXXXXXXX']
VARS = {
    'bit': dict(ty='bit_vector(0 to 2)', el='bit', v="'01'"), 'desc': dict(ty='bit_vector(0 to 2)', el='bit', v="'01'"),
    'int': dict(ty='iv(0 to 2)', el='integer', v=(3, 70000)), 'std': dict(ty='std_logic_vector(0 to 2)', el='std_logic', v="'01'"),
    'std2': dict(ty='std_logic_vector(0 to 2)', el='std_logic', v="'01'"), 'rec': dict(ty='rec', el='bit', v="'01'"),
    'nest': dict(ty='nest', el='bit', v="'01'"), 'wide': dict(ty='lv(0 to 2)', el='time', v=('1 ns', '1 hr')),
    'arec': dict(ty='arec', el='bit', v="'01'"),
    'in': dict(ty='bit_vector(0 to 2)', el='bit', v="'01'"), 'out': dict(ty='bit_vector(0 to 2)', el='bit', v="'01'"), 'guard': dict(ty='std_logic_vector(0 to 2)', el='std_logic', v="'01'"),
}


def target(var, els, s='v'):
    if var in ('rec', 'nest'):
        arr = '%s.y' % s
        if els == (0, 1, 2):
            return [(s, els)]
        out = []
        if 0 in els:
            out.append((s + '.x', (0,)))
        rest = tuple(e for e in els if e)
        if rest == (1, 2):
            out.append((arr, rest))
        elif rest:
            out.append(('%s(%d)' % (arr, rest[0]), rest))
        return out
    if els == (0, 1, 2):
        return [(s, els)]
    if var == 'arec' and len(els) == 1:
        return [('%s(%d).a' % (s, els[0]), els)]
    if len(els) == 1:
        return [('%s(%d)' % (s, els[0]), els)]
    return [('%s(%d to %d)' % (s, els[0], els[-1]), els)]


def lit(var, els, bits):
    V = VARS[var]['v']
    def el(b):
        return "'%d'" % b if isinstance(V, str) else str(V[b])
    if len(els) == 1:
        return el(bits[0])
    if var == 'arec':
        return '(' + ', '.join('(a => %s)' % el(b) for b in bits) + ')'
    if var in ('rec', 'nest') and els == (0, 1, 2):
        return '(%s, (%s, %s))' % tuple(el(b) for b in bits)
    return '(' + ', '.join(el(b) for b in bits) + ')'


def stmt(var, op):
    k, els, bits, dl = op
    o = ''
    for t, e in target(var, els):
        if k == 'R':
            o += '%s <= release; ' % t
        else:
            x = lit(var, e, tuple(bits[els.index(q)] for q in e))
            o += '%s <= force %s; ' % (t, x) if k == 'F' else '%s <= %s%s; ' % (t, 'transport ' if dl else '', x + (' after 1 ns' if dl else ''))
    return o


def num(var, s):
    el = VARS[var]['el']
    names = ['%s.x' % s, '%s.y(1)' % s, '%s.y(2)' % s] if var in ('rec', 'nest') else ['%s(%d)%s' % (s, i, '.a' if var == 'arec' else '') for i in range(3)]
    if el == 'integer':
        return ' + '.join('(%s / 70000) * %d' % (n, 100 ** (2 - i)) for i, n in enumerate(names))
    if el == 'time':
        return ' + '.join("boolean'pos(%s = 1 hr) * %d" % (n, 100 ** (2 - i)) for i, n in enumerate(names))
    return ' + '.join("%s'pos(%s) * %d" % (el, n, 100 ** (2 - i)) for i, n in enumerate(names))


def design(var, seqs, ops, depth, walk=None):
    """seqs: list of tuples of op*3+gap, one instance each (or one walk)."""
    T = VARS[var]['ty']
    ini = lit(var, (0, 1, 2), (0, 0, 0))
    flat = [x for s in seqs for x in s]
    o = '''library ieee; use ieee.std_logic_1164.all;
package pk is
  type ivec is array (natural range <>) of integer;
  type ifile is file of integer;
  type iv is array (natural range <>) of integer;
  type lv is array (natural range <>) of time;
  type yv is array (1 to 2) of bit;
  type rec is record x : bit; y : bit_vector(1 to 2); end record;
  type srec is record a : bit; end record;
  type arec is array (0 to 2) of srec;
  type nest is record x : bit; y : yv; end record;
  constant SEQ : ivec := (%s);
  constant DEPTH : natural := %d;
  constant N : natural := %d;
  file f : ifile open write_mode is "o.bin";
  procedure log(n, k, w, x : integer);
end package;
package body pk is
  procedure log(n, k, w, x : integer) is begin write(f, n); write(f, k); write(f, w); write(f, x); end procedure;
end package body;
''' % (', '.join(map(str, flat)), depth, len(seqs))
    o += '''library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity rd is generic (n : natural); port (p : in %s; k : in integer); end entity;
architecture a of rd is begin
  process begin wait on k; log(n, k, 1, %s); end process;
end architecture;
''' % (T, num(var, 'p'))
    body = '''  process
    variable x : integer;
  begin
    for i in 0 to DEPTH loop
      if i < DEPTH then
        x := SEQ(n * DEPTH + i);
        case x / 3 is
'''
    for i, op in enumerate(ops):
        body += '          when %d => %s\n' % (i, stmt(var, OPS[op]))
    body += '''          when others => null;
        end case;
      else
        x := 1;
      end if;
      if i = DEPTH or x mod 3 = 2 then wait for 1 ns; elsif x mod 3 = 1 then wait for 0 ns; end if;
      if i = DEPTH or x mod 3 > 0 then
        log(n, i, 0, %s);
      end if;
    end loop;
    wait;
  end process;
''' % num(var, 'v')
    if var in ('out', 'in'):
        o += '''library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity dv is generic (n : natural); port (v : %s %s := %s); end entity;
architecture a of dv is begin
%send architecture;
library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity cell is generic (n : natural); end entity;
architecture a of cell is
  signal v : %s := %s;
begin
  u: entity work.dv generic map (n) port map (v);
''' % (var, T, ini, body, T, ini)
    else:
        o += '''library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity cell is generic (n : natural); end entity;
architecture a of cell is
  signal v : %s%s := %s;
begin
%s''' % (T, ' bus' if var == 'guard' else '', ini, body)
    if var == 'std2':
        o += '  v <= "H1Z";\n'
    o += '''  obs: block
    signal k : integer := -1;
  begin
    k <= k + 1 after 500 ps when k < %d;
    u: entity work.rd generic map (n) port map (v, k);
  end block;
end architecture;
use work.pk.all;
entity t is end entity;
architecture a of t is begin
  g: for i in 0 to N - 1 generate u: entity work.cell generic map (i); end generate;
end architecture;
''' % (2 * depth + 6)
    return o


def model(var, seq, ops):
    """-> samples [(kind of observer, index, value)] in order for one instance."""
    std = VARS[var]['el'] == 'std_logic'
    drv = [0, 0, 0]
    pend = [[], [], []]          # (time, value), in order
    frc = [None] * 3
    nf = {}                      # forces scheduled for the next delta
    nd = {}
    hist = []                    # (time in half ns, value)
    out = []
    t = 0

    def value():
        r = 0
        for i in range(3):
            if frc[i] is not None:
                x = frc[i] + 2 if std else frc[i]
            elif std:
                x = drv[i] + 2
                if var == 'std2':
                    x = STD.index(RES[STD.index('H1Z'[i])][x])
            else:
                x = drv[i]
            r = r * 100 + x
        return r

    def delta():
        for i, x in nf.items():
            frc[i] = x
        for i, x in nd.items():
            drv[i] = x
        nf.clear()
        nd.clear()

    def advance():
        nonlocal t
        delta()
        hist.append((t, value()))
        t += 1
        for i in range(3):
            while pend[i] and pend[i][0][0] <= t:
                drv[i] = pend[i].pop(0)[1]
    L = len(seq)
    for k in range(L + 1):
        if k < L:
            op, gap = OPS[ops[seq[k] // 3]], seq[k] % 3
            kind, els, bits, dl = op
            for j, e in enumerate(els):
                if kind == 'F':
                    nf[e] = bits[j]
                elif kind == 'R':
                    nf[e] = None
                elif dl:
                    pend[e] = [p for p in pend[e] if p[0] < t + 1] + [(t + 1, bits[j])]
                else:
                    pend[e] = []
                    nd[e] = bits[j]
        else:
            gap = 2
        if gap == 1:
            delta()
        elif gap == 2:
            advance()
        if gap:
            out.append((0, k, value()))
    for _ in range(3 * L + 6):
        advance()
    # observer at 0.5, 1, 1.5 ns ...: only the samples in the middle of a ns are compared
    n = 2 * L + 6
    for k in range(0, n + 1, 2):
        # forcing a port of mode in does not affect the actual
        out.append((1, k, 0 if var == 'in' else hist[k // 2][1]))
    return out


def main():
    c = vf.Check('P05', 'model_checking')
    c.build()
    allops = list(range(len(OPS)))
    tasks = []
    CH = 1100 if not c.thorough else 3000

    def split(var, seqs, ops, opts):
        for i in range(0, len(seqs), CH):
            tasks.append((var, seqs[i:i + CH], ops, opts))
    for vi, var in enumerate(VARS):
        if var == 'desc':
            continue
        o2 = allops if var != 'in' else allops[:8]
        if var == 'in':
            split(var, [s for s in itertools.product(range(24), repeat=2)], o2, ['--no-collapse'])
            split(var, [(8, 23)], o2, [])
            continue
        two = [s for s in itertools.product(range(3 * len(o2)), repeat=2)]
        if c.thorough:
            split(var, two, o2, [])
            split(var, two, o2, ['--no-collapse'])
            sm = [s for s in itertools.product([q * 3 + g for q in range(len(SMALL)) for g in (0, 1, 2)], repeat=3)]
            split(var, sm, SMALL, ['--no-collapse'] if vi % 2 else [])
        else:
            split(var, two, o2, ['--no-collapse'] if vi % 2 else [])
    # one long walk per variant
    def db(k, n):
        a = [0] * k * n
        seq = []

        def go(t, p):
            if t > n:
                if n % p == 0:
                    seq.extend(a[1:p + 1])
            else:
                a[t] = a[t - p]
                go(t + 1, p)
                for j in range(a[t - p] + 1, k):
                    a[t] = j
                    go(t + 1, t)
        go(1, 1)
        return seq + seq[:n - 1]
    w3 = db(3 * len(OPS), 3)
    for var in VARS:
        if var == 'in':
            tasks.append((var, [tuple(db(24, 3))], allops[:8], ['--no-collapse']))
        elif var != 'desc':
            tasks.append((var, [tuple(w3)], allops, []))
            tasks.append((var, [tuple(w3)], allops, ['--no-collapse']))
    c.log('%d designs' % len(tasks))

    def one(tk):
        k, (var, seqs, ops, opts) = tk
        d = c.dir('t%d' % k)
        L = len(seqs[0])
        open(d + '/t.vhd', 'w').write(design(var, seqs, ops, L))
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save'] + opts + ['t', '-r']
        r = c.nvc(args, d, timeout=400, pre=('-M', '1g', '-H', '512m'))
        if r.rc != 0 or r.timed_out:
            return [('crash', 'rc=%s %s' % (r.rc, r.out[-1200:]))], 0, d, args
        b = open(d + '/o.bin', 'rb').read()
        v = struct.unpack('<%di' % (len(b) // 4), b)
        got = {}
        for i in range(0, len(v), 4):
            got.setdefault(v[i], {})[v[i + 2], v[i + 1]] = v[i + 3]
        bad = []
        total = 0
        for n, s in enumerate(seqs):
            g = got.get(n, {})
            for w, i, x in model(var, s, ops):
                total += 1
                if g.get((w, i)) != x:
                    show = ['%s(%s)%s%s%s' % (OPS[ops[q // 3]][0], ','.join(map(str, OPS[ops[q // 3]][1])), '=' + ''.join(map(str, OPS[ops[q // 3]][2])) if OPS[ops[q // 3]][2] else '',
                                              ' after 1 ns' if OPS[ops[q // 3]][3] else '', [' ;', ' +delta', ' +1ns'][q % 3]) for q in (s[max(0, i - 4):i + 1] if w == 0 else s[:6])]
                    bad.append(('value', '%s after %s: %s %d expected %06d, got %s' % (var, ' '.join(show), 'step' if w == 0 else 'port, half ns', i, x, g.get((w, i)))))
                    break
            if len(bad) >= 3:
                break
        if not bad:
            shutil.rmtree(d)
        return bad, total, d, args
    total = steps = nseq = 0
    for (var, seqs, ops, opts), (bad, tot, d, args) in zip(tasks, c.pmap(one, list(enumerate(tasks)))):
        total += tot
        nseq += len(seqs)
        steps += sum(map(len, seqs))
        for what, text in bad[:1]:
            if os.environ.get('VERIF_ALL'):
                print(var, len(seqs), opts, [b[1][-400:] for b in bad])
            c.violation('%s:%s%s%s' % (what, var, ':walk' if len(seqs[0]) > 9 else '', ':' + opts[0] if opts else ''), text,
                        {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
    c.finish({'states': nseq, 'transitions': steps, 'traces_validated_against_impl': nseq, 'values_compared': total, 'exhaustive': True,
              'operations': len(OPS) * 3, 'variants': len(VARS) - 1,
              'samples': [stmt('bit', o) for o in OPS]},
             ['a force or release takes effect in the next delta cycle, and the last one of a cycle counts'])


if __name__ == '__main__':
    vf.main(main)
