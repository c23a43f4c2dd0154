#!/usr/bin/env python3
"""P03: processes resume exactly when their wait condition says.

Every combination of sensitivity set, condition and timeout (and alternating
pairs of wait statements, processes with sensitivity lists, postponed
processes, waits in procedures, sensitivity through ports) is run against every
sequence of L steps of an alphabet of signal changes (new state x time gap),
and the exact list of resumptions is compared with an event-driven model."""
import os, sys, struct, itertools, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

S01 = '01XH'


def values(k):
    a, b = k & 1, k >> 1
    return {'a': a, 'b': b, 'i': k, 's': S01[k], 'v(3)': a, 'v(2)': b, 'v(1)': a ^ b, 'v(0)': a & b,
            'r.x': a, 'r.y(0)': b, 'r.y(1)': a}


LEAVES = {'a': ['a'], 'b': ['b'], 'i': ['i'], 's': ['s'], 'v': ['v(3)', 'v(2)', 'v(1)', 'v(0)'], 'v(3)': ['v(3)'], 'v(2)': ['v(2)'], 'v(1)': ['v(1)'],
          'v(2 downto 1)': ['v(2)', 'v(1)'], 'v(1 downto 0)': ['v(1)', 'v(0)'], 'r': ['r.x', 'r.y(0)', 'r.y(1)'], 'r.y': ['r.y(0)', 'r.y(1)'],
          'r.y(0)': ['r.y(0)'], 'r.x': ['r.x'], 'st': ['st'], 'al': ['v(2)', 'v(1)'],
          'pa': ['a'], 'pv': ['v(3)', 'v(2)', 'v(1)', 'v(0)'], 'pv(1)': ['v(1)'], 'pe': ['v(2)'], 'pc': ['b']}


def x01(c):
    return {'0': '0', '1': '1', 'L': '0', 'H': '1'}.get(c, 'X')


# condition: text, signals it reads, function of (current, last, events)
CONDS = {
    None: (None, [], lambda c, l, e: True),
    'a1': ("a = '1'", ['a'], lambda c, l, e: c['a'] == 1),
    'b1': ("b = '1'", ['b'], lambda c, l, e: c['b'] == 1),
    'ab': ('a = b', ['a', 'b'], lambda c, l, e: c['a'] == c['b']),
    'i2': ('i = 2', ['i'], lambda c, l, e: c['i'] == 2),
    'ig': ('i >= 2', ['i'], lambda c, l, e: c['i'] >= 2),
    're': ('rising_edge(s)', ['s'], lambda c, l, e: 's' in e and x01(c['s']) == '1' and x01(l['s']) == '0'),
    'fe': ('falling_edge(a)', ['a'], lambda c, l, e: 'a' in e and c['a'] == 0),
    'ev': ("a'event and b = '1'", ['a', 'b'], lambda c, l, e: 'a' in e and c['b'] == 1),
    'v1': ("v(1) = '1'", ['v(1)'], lambda c, l, e: c['v(1)'] == 1),
    'vv': ('v(3 downto 2) = "10"', ['v(3)', 'v(2)'], lambda c, l, e: c['v(3)'] == 1 and c['v(2)'] == 0),
    'rr': ("r.y(0) = '1' or r.x = '0'", ['r.y(0)', 'r.x'], lambda c, l, e: c['r.y(0)'] == 1 or c['r.x'] == 0),
    'fn': ('f(a, b)', ['a', 'b'], lambda c, l, e: c['a'] == 1 and c['b'] == 0),
    'm3': ('st mod 3 = 0', ['st'], lambda c, l, e: c['st'] % 3 == 0),
    # conditions for "if" processes (lowered to triggers)
    'tba': ('f(b, a)', ['a', 'b'], lambda c, l, e: c['b'] == 1 and c['a'] == 0),
    'g1': ('g(a, 1)', ['a'], lambda c, l, e: c['a'] == 1 and 'a' in e),
    'g0': ('g(a, 0)', ['a'], lambda c, l, e: c['a'] == 0 and 'a' in e),
    'ae1': ("a'event and a = '1'", ['a'], lambda c, l, e: 'a' in e and c['a'] == 1),
    'ae2': ("a = '0' and a'event", ['a'], lambda c, l, e: 'a' in e and c['a'] == 0),
    'i3': ('3 = i', ['i'], lambda c, l, e: c['i'] == 3),
    'rea': ('rising_edge(a)', ['a'], lambda c, l, e: 'a' in e and c['a'] == 1),
    'feb': ('falling_edge(b)', ['b'], lambda c, l, e: 'b' in e and c['b'] == 0),
}
IMPL = ['a1', 'b1', 'ab', 'i2', 'ig', 're', 'fe', 'ev', 'v1', 'vv', 'rr', 'fn', 'm3']
SENS = [[], ['a'], ['b'], ['a', 'b'], ['v'], ['v(3)'], ['v(2 downto 1)'], ['r'], ['r.y(0)'], ['s', 'i'], ['v(1)', 'r.x'], ['al'], ['st']]
TMO = [None, 0, 1, 2, 3]


def wait_text(w):
    sens, cond, t = w
    x = 'wait'
    if sens:
        x += ' on ' + ', '.join(sens)
    if cond:
        x += ' until ' + CONDS[cond][0]
    if t is not None:
        x += ' for %d ns' % t
    return x + ';'


def duts():
    """(name, kind, waits...)"""
    D = []
    for s in SENS:
        for c in [None] + IMPL:
            for t in TMO:
                if not s and not c and t is None:
                    continue
                D.append(('wait', [(s, c, t)] + ([(['st'], None, None)] if t == 0 else [])))
    basic = [(['a'], None, None), (['b'], None, 1), (['a', 'b'], None, 2), ([], 'a1', None), ([], 'ab', 1), (['a'], 'b1', None),
             (['v'], None, None), (['v(2 downto 1)'], None, 0), (['r.y(0)'], None, None), ([], 're', 3), ([], None, 0), ([], None, 1),
             ([], None, 2), (['i'], 'ig', 2), (['v(3)'], 'v1', None), (['r', 'a'], None, None)]
    for p in itertools.product(basic, repeat=2):
        if all(w[2] == 0 for w in p):
            continue
        D.append(('wait', list(p)))
    for w in basic:
        if w[2] != 0:
            D.append(('proc', [w]))                # in a procedure with signal parameters
    for p in itertools.combinations(basic[:9], 3):
        D.append(('wait', list(p)))
    lists = [['a'], ['b'], ['a', 'b'], ['v'], ['v(1)'], ['v(2 downto 1)', 'b'], ['r'], ['r.y'], ['r.x', 'v(3)'], ['s'], ['i'], ['al', 'a']]
    for l in lists:
        D.append(('list', [(l, None, None)]))
        D.append(('postlist', [(l, None, None)]))
        for t in (1, 2, 3):
            D.append(('postponed', [(l, None, t)]))
    for t in (1, 2, 3):
        D.append(('postponed', [([], None, t)]))
    for l in (['a'], ['b'], ['a', 'b'], ['i'], ['s'], ['a', 's'], ['i', 'b']):
        for c in ('rea', 're', 'g1', 'g0', 'fn', 'tba', 'ae1', 'ae2', 'i2', 'i3', 'feb', 'a1', 'fe'):
            D.append(('if', [(l, c, None)]))
    for c, d in (('rea', 'feb'), ('i2', 'i3'), ('g1', 'g0'), ('fn', 'tba'), ('ae1', 'ae2'), ('re', 'feb'), ('ae1', 'i3')):
        for l in (['a'], ['b'], ['a', 'b'], ['a', 'b', 'i'], ['s', 'b']):
            D.append(('ifelsif', [(l, c, None), (l, d, None)]))
    D.append(('all', [(['a', 'v(1)', 'r.y(0)'], None, None)]))
    D.append(('concurrent', [(['a', 'v(1)'], None, None)]))
    D.append(('conccall', [(['b', 'r.x'], None, None)]))
    for l in (['pa'], ['pv'], ['pv(1)'], ['pe'], ['pc'], ['pa', 'pe'], ['pv(1)', 'pc']):
        D.append(('list', [(l, None, None)]))
        for t in (None, 1, 2):
            D.append(('wait', [(l, None, t)]))
            D.append(('wait', [(l, None, None), (['pa'], None, t), ([], None, 1)]))
    return D


PKG = '''library ieee; use ieee.std_logic_1164.all;
package pk is
  type ivec is array (natural range <>) of integer;
  type ifile is file of integer;
  type rec is record x : bit; y : bit_vector(0 to 1); end record;
  constant WK : ivec := (%s);
  constant WG : ivec := (%s);
  function f(signal x, y : bit) return boolean;
  function g(signal x : bit; constant n : integer) return boolean;
end package;
package body pk is
  function f(signal x, y : bit) return boolean is begin return x = '1' and y = '0'; end function;
  function g(signal x : bit; constant n : integer) return boolean is begin return x = bit'val(n) and x'event; end function;
end package body;
'''
ENT = '''library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity duts is
  port (pa : in bit; pv : in bit_vector(3 downto 0); pe : in bit; pc : in bit;
        a, b : in bit; i : in integer; s : in std_logic; v : in bit_vector(3 downto 0); r : in rec; st : in integer);
end entity;
'''
TOP = '''library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity t is end entity;
architecture a of t is
  signal a, b : bit; signal i, st : integer := 0; signal s : std_logic := '0';
  signal v : bit_vector(3 downto 0); signal r : rec;
  alias al : bit_vector(1 downto 0) is v(2 downto 1);
begin
  stim: process
    variable x, y : bit;
    constant tab : std_logic_vector(0 to 3) := "01XH";
    variable g : delay_length;
  begin
    for n in WK'range loop
      x := bit'val(WK(n) mod 2); y := bit'val(WK(n) / 2); g := WG(n) * 1 ns;
      a <= x after g; b <= y after g; i <= WK(n) after g; s <= tab(WK(n)) after g;
      v <= (x, y, x xor y, x and y) after g; r <= (x, (y, x)) after g; st <= st + 1 after g;
      wait on st;
    end loop;
    wait for 10 ns;
    std.env.finish;
    wait;
  end process;
'''


def dut_text(n, kind, ws):
    fn = 'd%d.bin' % n
    log = 'write(lf, st); write(lf, now / ns);'
    o = '  b%d: block\n    file lf : ifile open write_mode is "%s";\n' % (n, fn)
    if kind in ('wait', 'postponed'):
        o += '  begin\n    %sprocess begin\n' % ('postponed ' if kind == 'postponed' else '')
        for w in ws:
            o += '      %s\n      %s\n' % (wait_text(w), log)
        o += '    end process;\n'
    elif kind == 'proc':
        w = wait_text(ws[0])
        o += '''  begin
    process
      procedure inner(x : integer; signal a, b : in bit; signal i : in integer; signal s : in std_logic; signal v : in bit_vector; signal r : in rec) is
      begin
        %s
      end procedure;
    begin
      inner(1, a, b, i, s, v, r);
      %s
    end process;
''' % (w, log)
    elif kind in ('list', 'postlist', 'all'):
        l = 'all' if kind == 'all' else ', '.join(ws[0][0])
        rd = 'if (a = v(1)) or r.y(0) = \'1\' then null; end if;' if kind == 'all' else ''
        if kind == 'all':
            o += '  begin\n    process (all)\n      impure function lg return boolean is begin %s return true; end function;\n      variable x : boolean;\n    begin\n      %s x := lg;\n    end process;\n' % (log, rd)
        else:
            o += '  begin\n    %sprocess (%s) begin\n      %s\n    end process;\n' % ('postponed ' if kind == 'postlist' else '', l, log)
    elif kind in ('if', 'ifelsif'):
        o += '  begin\n    process (%s) begin\n      if %s then %s\n' % (', '.join(ws[0][0]), CONDS[ws[0][1]][0], log)
        if kind == 'ifelsif':
            o += '      elsif %s then write(lf, -st); write(lf, now / ns);\n' % CONDS[ws[1][1]][0]
        o += '      end if;\n    end process;\n'
    elif kind == 'concurrent':
        o += '''    impure function lg(x, y : bit) return boolean is begin write(lf, st); write(lf, now / ns); return x = y; end function;
    signal q : boolean;
  begin
    q <= lg(a, v(1));
'''
    elif kind == 'conccall':
        o += '''    procedure lg(signal x, y : in bit) is begin write(lf, st); write(lf, now / ns); end procedure;
  begin
    lg(b, r.x);
'''
    return o + '  end block;\n'


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq + seq[:n - 1]


def cycles(walk):
    """[(time, delta, values, last, events)] for every change of the signals"""
    cur = dict(values(0), st=0)
    last = dict(cur)
    t = d = 0
    out = []
    for n, w in enumerate(walk):
        k, g = w % 4, w // 4
        if g == 0:
            d += 1
        else:
            t, d = t + g, 0
        new = dict(values(k), st=n + 1)
        ev = {x for x in new if new[x] != cur[x]}
        last = dict(last)
        for x in ev:
            last[x] = cur[x]
        cur = new
        out.append((t, d, cur, last, ev))
    return out


def predict(kind, ws, cyc, tend, early=False):
    """early: the known finding, a timeout runs a postponed process in the first delta"""
    out = []
    leaves = lambda w: {x for s in (w[0] or CONDS[w[1]][1]) for x in LEAVES[s]}
    t = d = 0
    st = 0
    pos = 0
    n = len(cyc)
    if kind in ('if', 'ifelsif'):
        sens = leaves(ws[0])
        for (ct, cd, cur, last, ev) in cyc:
            if sens & ev:
                if CONDS[ws[0][1]][2](cur, last, ev):
                    out += [cur['st'], ct]
                elif kind == 'ifelsif' and CONDS[ws[1][1]][2](cur, last, ev):
                    out += [-cur['st'], ct]
        # initial execution
        c0 = dict(values(0), st=0)
        if CONDS[ws[0][1]][2](c0, c0, set()):
            out = [0, 0] + out
        elif kind == 'ifelsif' and CONDS[ws[1][1]][2](c0, c0, set()):
            out = [0, 0] + out
        return out
    if kind in ('postponed', 'postlist'):
        times = []                      # [time, final st, all events]
        for (ct, cd, cur, last, ev) in cyc:
            if not times or times[-1][0] != ct:
                times.append([ct, cur['st'], set(), cur['st'] if cd == 0 else None, ev if cd == 0 else set()])
            times[-1][1] = cur['st']
            times[-1][2] |= ev
        w = ws[0]
        sens = leaves(w)
        sts = {x[0]: x for x in times}
        st = 0
        if kind == 'postlist':
            out += [0, 0]               # executed in the initialization phase
        due = w[2] if w[2] is not None else None
        T = 0
        while T < tend:
            e = sts.get(T)
            prev = st
            if e:
                st = e[1]
            if early and due is not None and T == due:
                # resumed in the first cycle, then again at the end by later events
                if e and e[3] is not None:
                    out += [e[3], T]
                else:
                    out += [prev, T]
                due = T + w[2]
                later = set()
                for (ct, cd, cur, last, ev) in cyc:
                    if ct == T and cd > 0:
                        later |= ev
                if later & sens:
                    out += [st, T]
            elif (due is not None and T == due) or (e and e[2] & sens):
                out += [st, T]
                due = T + w[2] if w[2] is not None else None
            T += 1
        return out
    if kind in ('list', 'all', 'concurrent', 'conccall'):
        out += [0, 0]
    wi = 0
    while True:
        w = ws[wi]
        wi = (wi + 1) % len(ws)
        sens = leaves(w)
        due = None
        if w[2] is not None:
            due = (t + w[2], 0) if w[2] > 0 else (t, d + 1)
        while True:
            if due is not None and (pos >= n or due < cyc[pos][:2]):
                if due[0] >= tend:
                    return out
                t, d = due
                break
            if pos >= n:
                return out
            ct, cd, cur, last, ev = cyc[pos]
            pos += 1
            st = cur['st']
            if due == (ct, cd) or (sens & ev and CONDS[w[1]][2](cur, last, ev)):
                t, d = ct, cd
                break
        out += [st, t]


def main():
    c = vf.Check('P03', 'model_checking')
    c.build()
    D = duts()
    L = 4 if c.thorough else 3
    walk = debruijn(12, L)
    short = debruijn(12, 3)
    tasks = [([n], short) for n in range(len(D))]
    step = 48
    for k in range(0, len(D), step):
        tasks.append((list(range(k, min(k + step, len(D)))), walk))
    # mixed groups: neighbours of different kinds share signals
    for k in range(24):
        tasks.append((list(range(k, len(D), 24)), short))
    c.log('%d process forms, %d designs, histories of %d' % (len(D), len(tasks), L))
    cyc = {len(walk): cycles(walk), len(short): cycles(short)}

    def one(t):
        k, (ns, wk) = t
        d = c.dir('t%d' % k)
        cy = cyc[len(wk)]
        tend = cy[-1][0] + 10
        isport = lambda n: any(s[0] == 'p' for w in D[n][1] for s in w[0])
        with open(d + '/t.vhd', 'w') as f:
            f.write(PKG % (', '.join(str(x % 4) for x in wk), ', '.join(str(x // 4) for x in wk)))
            f.write(ENT)
            f.write('architecture a of duts is begin\n')
            for n in ns:
                if isport(n):
                    f.write(dut_text(n, *D[n]))
            f.write('end architecture;\n')
            f.write(TOP)
            for n in ns:
                if not isport(n):
                    f.write(dut_text(n, *D[n]))
            f.write('  u: entity work.duts port map (a, v, v(2), b, a, b, i, s, v, r, st);\nend architecture;\n')
        opts = ['--no-collapse'] if k % 5 == 4 else []
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save'] + opts + ['t', '-r']
        r = c.nvc(args, d, timeout=200)
        bad = []
        total = 0
        if r.rc != 0 or r.timed_out:
            return [('crash', ns[0], 'rc=%s %s' % (r.rc, r.out[-1200:]))], 0, d, args
        for n in ns:
            b = open(d + '/d%d.bin' % n, 'rb').read()
            got = list(struct.unpack('<%di' % (len(b) // 4), b))
            while got and got[-1] >= tend:
                got = got[:-2]
            want = predict(*D[n], cy, tend)
            total += len(want) // 2
            if got != want and D[n][0] == 'postponed' and got == predict(*D[n], cy, tend, True):
                bad.append(('known', n, '%s' % '; '.join(map(wait_text, D[n][1]))))
            elif got != want:
                i = next((i for i, (x, y) in enumerate(zip(got, want)) if x != y), min(len(got), len(want))) // 2 * 2
                s = (want[i] if i < len(want) else got[i])
                hist = ['%d@+%d' % (x % 4, x // 4) for x in wk[max(0, abs(s) - 5):abs(s) + 1]]
                bad.append(('value', n, '%s: resumption %d: expected (step, ns) %s got %s; changes (state@gap) before it %s' % (
                    '; '.join(map(wait_text, D[n][1])), i // 2, want[i:i + 2], got[i:i + 2], hist)))
        if not bad:
            shutil.rmtree(d)
        return bad, total, d, args

    total = 0
    steps = 0
    seen = {}
    for (ns, wk), (bad, tot, d, args) in zip(tasks, c.pmap(one, list(enumerate(tasks)))):
        total += tot
        steps += len(wk)
        for what, n, text in bad:
            kind, ws = D[n]
            if what == 'known':
                c.violation('postponed:timeout-first-delta', 'postponed process: %s: a timeout resumes it before the last delta cycle' % text,
                            {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
                continue
            key = '%s:%s:%s' % (what, kind, '/'.join(wait_text(w)[:-1].replace(' ', '_') for w in ws))
            seen[kind] = seen.get(kind, 0) + 1
            if os.environ.get('VERIF_ALL'):
                print(key, len(ns), text[:1000])
            if seen[kind] <= 3:
                c.violation(key, '%s process (%d in the design): %s' % (kind, len(ns), text),
                            {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
    c.finish({'states': 12 ** L, 'transitions': steps, 'traces_validated_against_impl': len(tasks), 'process_forms': len(D),
              'resumptions_compared': total, 'history_length': L, 'exhaustive': True,
              'samples': ['%s: %s' % (D[n][0], ' '.join(map(wait_text, D[n][1]))) for n in range(0, len(D), len(D) // 8)]},
             ['the model counts delta cycles of the stimulus only; conditions of postponed processes are not used'])


if __name__ == '__main__':
    vf.main(main)
