#!/usr/bin/env python3
"""P04: signal attributes report the true history of the signal.

All histories of L steps over an alphabet of (no assignment / assign 0 / assign
1 for each of two elements) x (time gap 0, 1, 2) are run in one closed walk; at
every step, one delta later and one nanosecond later all attributes of each
kind of signal are compared with their definition."""
import os, sys, struct, itertools, shutil, bisect
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

# target: (leaves, how the value is written as an integer)
TG = {
    'a': ['e0'], 'v': ['e1', 'e0'], 'v(0)': ['e0'], 'v(1)': ['e1'], 'w': ['w1', 'w0'], 'w(0)': ['w0'], 'r': ['e0', 'e1'], 'r.x': ['e0'],
    'r.y': ['e1'], 'm': ['m'], 'pa': ['e0'], 'pv': ['e1', 'e0'], 'pv(1)': ['e1'], 'po': ['e0'], 'u(5)': ['e1'], 'u(5 downto 4)': ['e1', 'e0'],
    'u': ['e1', 'e0'], 'n': ['e1', 'e0'], 'n.z': ['e1', 'e0'], 'n.z(1)': ['e1'],
}
VAL = {  # integer from the VHDL value
    'a': 'bit\'pos(%s)', 'v': 'num(%s)', 'v(0)': 'bit\'pos(%s)', 'v(1)': 'bit\'pos(%s)', 'w': 'num(%s)', 'w(0)': 'bit\'pos(%s)', 'r': 'num(%s)',
    'r.x': 'bit\'pos(%s)', 'r.y': 'bit\'pos(%s)', 'm': 'std_logic\'pos(%s)', 'pa': 'bit\'pos(%s)', 'pv': 'num(%s)', 'pv(1)': 'bit\'pos(%s)',
    'po': 'bit\'pos(%s)', 'u(5)': 'bit\'pos(%s)', 'u(5 downto 4)': 'num(%s)', 'u': 'num(%s)', 'n': 'num(%s)', 'n.z': 'num(%s)', 'n.z(1)': 'bit\'pos(%s)',
}
SIMPLE = ['value', 'event', 'active', 'last_event', 'last_active', 'last_value']
IMPLICIT = ['delayed0', 'delayed1', 'delayed2', 'stable0', 'stable1', 'stable2', 'quiet0', 'quiet1', 'quiet2', 'transaction']
WAKE = ['delayed0', 'delayed1', 'stable0', 'stable1', 'stable2', 'quiet1', 'quiet0', 'transaction']


def expr(t, at):
    if at == 'value':
        return VAL[t] % t
    if at in ('event', 'active'):
        return "boolean'pos(%s'%s)" % (t, at)
    if at in ('last_event', 'last_active'):
        return "tm(%s'%s)" % (t, at)
    if at == 'last_value':
        return VAL[t] % (t + "'last_value")
    if at == 'transaction':
        return "bit'pos(%s'transaction)" % t
    k, n = at[:-1], int(at[-1])
    x = "%s'%s" % (t, k) + ('(%d ns)' % n if n else '')
    if k == 'delayed':
        return VAL[t] % x
    return "boolean'pos(%s)" % x


PKG = '''library ieee; use ieee.std_logic_1164.all;
package pk is
  type ivec is array (natural range <>) of integer;
  type ifile is file of integer;
  type rec is record x, y : bit; end record;
  type nrec is record z : bit_vector(1 downto 0); k : integer; end record;
  constant WK : ivec := (%s);
  function num(v : bit_vector) return integer;
  function num(r : rec) return integer;
  function num(r : nrec) return integer;
  function tm(t : time) return integer;
end package;
package body pk is
  function num(v : bit_vector) return integer is
    variable x : integer := 0;
  begin
    for i in v'range loop x := x * 2 + bit'pos(v(i)); end loop;
    return x;
  end function;
  function num(r : rec) return integer is begin return bit'pos(r.x) * 2 + bit'pos(r.y); end function;
  function num(r : nrec) return integer is begin return num(r.z) + r.k; end function;
  function tm(t : time) return integer is begin if t = time'high then return -1; else return t / ns; end if; end function;
end package body;
library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity gen is port (po : out bit; pov : out bit_vector(1 downto 0); st : in integer); end entity;
architecture a of gen is begin
  process
    variable o : ivec(0 to 1);
    variable g : delay_length;
  begin
    for n in WK'range loop
      o := (WK(n) mod 3, (WK(n) / 3) mod 3); g := (WK(n) / 9) * 1 ns;
      if o(0) > 0 then po <= bit'val(o(0) - 1) after g; end if;
      wait on st;
    end loop;
    wait;
  end process;
end architecture;
'''
TOP = '''library ieee; use ieee.std_logic_1164.all; use work.pk.all;
entity t is end entity;
architecture a of t is
  signal a, po : bit; signal st : integer := 0; signal m : std_logic := '0';
  signal v, w : bit_vector(1 downto 0); signal r : rec; signal u : bit_vector(7 downto 0); signal n : nrec := (k => 0, z => "00");
begin
  stim: process
    variable o : ivec(0 to 1);
    variable g : delay_length;
    variable wv : bit_vector(1 downto 0);
    file lf : ifile open write_mode is "drv.bin";
  begin
    for k in WK'range loop
      o := (WK(k) mod 3, (WK(k) / 3) mod 3); g := (WK(k) / 9) * 1 ns;
      if o(0) > 0 then
        a <= bit'val(o(0) - 1) after g; v(0) <= bit'val(o(0) - 1) after g; r.x <= bit'val(o(0) - 1) after g;
        u(4) <= bit'val(o(0) - 1) after g; n.z(0) <= bit'val(o(0) - 1) after g;
        m <= std_logic'val(o(0) + 1) after g; wv(0) := bit'val(o(0) - 1);
      end if;
      if o(1) > 0 then
        v(1) <= bit'val(o(1) - 1) after g; r.y <= bit'val(o(1) - 1) after g; u(5) <= bit'val(o(1) - 1) after g;
        n.z(1) <= bit'val(o(1) - 1) after g; wv(1) := bit'val(o(1) - 1);
      end if;
      if o(0) > 0 or o(1) > 0 then w <= wv after g; end if;
      st <= st + 1 after g;
      wait on st;
      write(lf, bit'pos(a'driving_value)); write(lf, num(v'driving_value)); write(lf, std_logic'pos(m'driving_value));
      write(lf, num(w'driving_value)); write(lf, boolean'pos(a'driving));
    end loop;
    wait for 10 ns;
    std.env.finish;
    wait;
  end process;
  drv2: process
    variable o : integer;
    variable g : delay_length;
  begin
    for k in WK'range loop
      o := (WK(k) / 3) mod 3; g := (WK(k) / 9) * 1 ns;
      if o > 0 then m <= std_logic'val(o + 1) after g; end if;
      wait on st;
    end loop;
    wait;
  end process;
  ug: entity work.gen port map (po, open, st);
  um: entity work.mon port map (a, v, st);
'''


def monitor(t, ats, wakes, n):
    log = ' '.join('write(lf, %s);' % expr(t, at) for at in ats)
    o = ''
    for k, w in enumerate(['', ' wait for 0 ns;', ' wait for 1 ns;']):
        # every step is sampled by one of several processes
        if not w:
            o += '''  s%d_%d: process
    file lf : ifile open write_mode is "s%d_%d.bin";
  begin
    wait on st;%s write(lf, st);
    %s
  end process;
''' % (n, k, n, k, w, log)
        else:
            for ph in range(2):
                # started at alternate steps
                o += '''  s%d_%d%d: process
    file lf : ifile open write_mode is "s%d_%d%d.bin";
  begin
    wait on st until st mod 2 = %d;%s write(lf, st); write(lf, now / ns);
    %s
  end process;
''' % (n, k, ph, n, k, ph, ph, w, log)
    for at in wakes:
        k, m = at[:-1], at[-1]
        x = "%s'transaction" % t if at == 'transaction' else "%s'%s" % (t, k) + ('(%s ns)' % m if m != '0' else '')
        o += '''  w%d_%s: process
    file lf : ifile open write_mode is "w%d_%s.bin";
  begin
    wait on %s; write(lf, st); write(lf, now / ns);
  end process;
''' % (n, at, n, at, x)
    return o


def debruijn(k, n):
    a = [0] * k * n
    seq = []

    def db(t, p):
        if t > n:
            if n % p == 0:
                seq.extend(a[1:p + 1])
        else:
            a[t] = a[t - p]
            db(t + 1, p)
            for j in range(a[t - p] + 1, k):
                a[t] = j
                db(t + 1, t)
    sys.setrecursionlimit(10000)
    db(1, 1)
    return seq + seq[:n - 1]


class Hist:
    """Values, events and activity of every leaf at every cycle."""

    def __init__(self, walk):
        self.keys = []
        L = ['e0', 'e1', 'w0', 'w1', 'm']
        self.val = {l: [] for l in L}     # value after each cycle
        self.ev = {l: [] for l in L}      # cycles with events
        self.ac = {l: [] for l in L}
        cur = dict(e0=0, e1=0, w0=0, w1=0, m=2)
        t = d = 0
        # cycle 0: time 0 initial; the initial assignment m <= '0' happens in the first cycle
        self.keys.append((0, -1))
        for l in L:
            self.val[l].append(cur[l])
        dm = [0, 0]
        for k, x in enumerate(walk):
            o0, o1, g = x % 3, x // 3 % 3, x // 9
            if g == 0:
                d += 1
            else:
                t, d = t + g, 0
            key = (t, d)
            act = set()
            new = dict(cur)
            if o0:
                new['e0'] = o0 - 1
                act |= {'e0', 'm', 'w0', 'w1'}
                dm[0] = o0 - 1
            if o1:
                new['e1'] = o1 - 1
                act |= {'e1', 'm', 'w0', 'w1'}
                dm[1] = o1 - 1
            new['w0'], new['w1'] = new['e0'], new['e1']
            new['m'] = 1 if dm[0] != dm[1] else dm[0] + 2
            self.keys.append(key)
            for l in L:
                self.val[l].append(new[l])
                if l in act:
                    self.ac[l].append(key)
                if new[l] != cur[l]:
                    self.ev[l].append(key)
            cur = new
        self.tend = t + 10

    def at(self, l, key):
        return self.val[l][max(bisect.bisect_right(self.keys, key) - 1, 0)]

    def before(self, l, key):
        return self.val[l][max(bisect.bisect_left(self.keys, key) - 1, 0)]


def last(l, key):
    i = bisect.bisect_right(l, key)
    return l[i - 1] if i else None


class Target:
    def __init__(self, h, t):
        self.h, self.t, self.lv = h, t, TG[t]
        self.ev = sorted(set().union(*[h.ev[l] for l in self.lv]))
        self.ac = sorted(set().union(*[h.ac[l] for l in self.lv]))
        self.evs, self.acs = set(self.ev), set(self.ac)
        self.cache = {}

    def num(self, f):
        x = 0
        for l in self.lv:
            x = x * 2 + f(l)
        if self.t == 'u':
            x <<= 4
        return x

    def value(self, key):
        return self.num(lambda l: self.h.at(l, key))

    def perelem(self, key):
        """'last_value of a composite if each element had its own history."""
        def f(l):
            k = last(self.h.ev[l], key)
            return self.h.at(l, key) if k is None else self.h.before(l, k)
        return self.num(f)

    def get(self, at, key):
        h, (t, d) = self.h, key
        if at == 'value':
            return self.value(key)
        if at == 'event':
            return int(key in self.evs)
        if at == 'active':
            return int(key in self.acs)
        if at in ('last_event', 'last_active'):
            k = last(self.ev if at == 'last_event' else self.ac, key)
            return -1 if k is None else t - k[0]
        if at == 'last_value':
            k = last(self.ev, key)
            return self.value(key) if k is None else self.num(lambda l: h.before(l, k))
        if at == 'transaction':
            return bisect.bisect_right(self.ac, key) & 1
        kind, n = at[:-1], int(at[-1])
        if kind == 'delayed':
            if n == 0:
                # the value one delta cycle ago
                return self.num(lambda l: h.before(l, key))
            return self.value((t - n, 1 << 30))if d > 0 or True else 0
        k = last(self.ev if kind == 'stable' else self.ac, key)
        if k is None:
            return 1
        if n == 0:
            return int(k != key)
        return int(k[0] + n <= t and k[0] != t)

    def changes(self, at):
        """Keys of the events of an implicit signal."""
        out = []
        h = self.h
        kind = at[:-1]
        if at == 'transaction':
            return list(self.ac)
        n = int(at[-1])
        if kind == 'delayed':
            if n == 0:
                return [(t, d + 1) for t, d in self.ev]
            cur = self.value((-1, 0))
            for t in sorted({k[0] for k in self.ev}):
                v = self.value((t, 1 << 30))
                if v != cur:
                    out.append((t + n, 0))
                cur = v
            return out
        ks = self.ev if kind == 'stable' else self.ac
        st = True
        for i, k in enumerate(ks):
            if st:
                out.append(k)
                st = False
            due = (k[0] + n, 0) if n else (k[0], k[1] + 1)
            if i + 1 == len(ks) or ks[i + 1] > due:
                out.append(due)
                st = True
        return out


def main():
    c = vf.Check('P04', 'model_checking')
    c.build()
    L = 3
    deep = debruijn(27, L)
    short = debruijn(27, 2)
    hist = {len(w): Hist(w) for w in (deep, short)}
    tg = {(n, t): Target(h, t) for n, h in hist.items() for t in TG}
    tasks = []
    for t in TG:
        tasks.append(([t], SIMPLE, [], deep, []))
        tasks.append(([t], SIMPLE, [], short, ['--no-collapse']))
        for at in IMPLICIT:
            tasks.append(([t], ['value', at], [at] if at in WAKE else [], deep if c.thorough else short, []))
        tasks.append(([t], SIMPLE + IMPLICIT, WAKE, deep if c.thorough else short, []))
        tasks.append(([t], SIMPLE + IMPLICIT, WAKE, short, ['--no-collapse']))
    for p in itertools.combinations([t for t in TG if t[0] in 'avwur'], 2):
        if p[0][0] == p[1][0]:
            tasks.append((list(p), SIMPLE + IMPLICIT, WAKE, short, []))
    tasks.append((list(TG), SIMPLE, [], short, []))
    tasks.append((list(TG), SIMPLE + IMPLICIT, WAKE, deep if c.thorough else short, []))
    c.log('%d designs, histories of %d steps' % (len(tasks), L))

    def one(tk):
        k, (ts, ats, wakes, wk, opts) = tk
        d = c.dir('t%d' % k)
        h = hist[len(wk)]
        with open(d + '/t.vhd', 'w') as f:
            f.write(PKG % ', '.join(map(str, wk)))
            f.write('library ieee; use ieee.std_logic_1164.all; use work.pk.all;\nentity mon is port (pa : in bit; pv : in bit_vector(1 downto 0); st : in integer); end entity;\narchitecture a of mon is begin\n')
            for n, t in enumerate(ts):
                if t[0] == 'p' and t != 'po':
                    f.write(monitor(t, ats, wakes, n))
            f.write('end architecture;\n' + TOP)
            for n, t in enumerate(ts):
                if t[0] != 'p' or t == 'po':
                    f.write(monitor(t, ats, wakes, n))
            f.write('end architecture;\n')
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save'] + opts + ['t', '-r']
        r = c.nvc(args, d, timeout=300)
        bad = []
        total = 0
        if r.rc != 0 or r.timed_out:
            return [('crash', ts[0], ats[-1], 'rc=%s %s' % (r.rc, r.out[-1200:]))], 0, d, args

        def rd(n):
            b = open(d + '/' + n, 'rb').read()
            return struct.unpack('<%di' % (len(b) // 4), b)
        errs = {}

        def err(t, at, text, known=None):
            if known:
                at += known
            e = errs.setdefault((t, at), [0, text])
            e[0] += 1

        def hs(i):
            return ['%s@+%d' % (''.join('-01'[q] for q in (x // 3 % 3, x % 3)), x // 9) for x in wk[max(0, i - 5):i]]
        for n, t in enumerate(ts):
            T = tg[len(wk), t]
            s = rd('s%d_0.bin' % n)
            w = len(ats) + 1
            if len(s) != w * len(wk):
                err(t, 'steps', 'expected %d samples, got %d' % (len(wk), len(s) // w))
            else:
                tx = None
                for i in range(len(wk)):
                    key = h.keys[i + 1]
                    for j, at in enumerate(ats):
                        x = T.get(at, key)
                        if at == 'transaction':
                            # the initial value is not specified
                            if tx is None:
                                tx = x ^ s[i * w + 1 + j]
                            x ^= tx
                        if x != s[i * w + 1 + j]:
                            known = ':per-element' if at == 'last_value' and s[i * w + 1 + j] == T.perelem(key) else None
                            err(t, at, 'at step %d (%d ns): expected %d, got %d; last changes (elements 1,0 @ gap) %s' % (i + 1, key[0], x, s[i * w + 1 + j], hs(i + 1)), known)
                total += len(wk) * len(ats)
            for p in (1, 2):
                for ph in range(2):
                    s = rd('s%d_%d%d.bin' % (n, p, ph))
                    w = len(ats) + 2
                    # the sampling process misses the steps while it waits
                    pos, keyw, i = 0, None, 0
                    nxt = 0
                    while nxt < len(wk):
                        i = nxt + 1
                        nxt += 1
                        if i % 2 != ph:
                            continue
                        key = h.keys[i]
                        key2 = (key[0], key[1] + 1) if p == 1 else (key[0] + 1, 0)
                        if key2[0] >= h.tend:
                            break
                        j = i
                        while j < len(wk) and h.keys[j + 1] <= key2:
                            j += 1
                        nxt = j
                        if pos + w > len(s):
                            err(t, 'samples', 'sample %d is missing' % (pos // w))
                            break
                        if (s[pos], s[pos + 1]) != (j, key2[0]):
                            err(t, 'samples', 'expected a sample at step %d, %d ns, got step %d, %d ns' % (j, key2[0], s[pos], s[pos + 1]))
                            break
                        for q, at in enumerate(ats):
                            x = T.get(at, key2)
                            if at == 'transaction':
                                x ^= tx
                            if x != s[pos + 2 + q]:
                                known = ':per-element' if at == 'last_value' and s[pos + 2 + q] == T.perelem(key2) else None
                                err(t, at, '%s after step %d (%d ns): expected %d, got %d; last changes %s' % (
                                    'one delta' if p == 1 else '1 ns', i, key2[0], x, s[pos + 2 + q], hs(j)), known)
                        pos += w
                        total += len(ats)
            for at in wakes:
                s = rd('w%d_%s.bin' % (n, at))
                want = [k for k in T.changes(at) if k[0] < h.tend]
                got = [(s[i], s[i + 1]) for i in range(0, len(s), 2) if s[i + 1] < h.tend]
                wl = [(bisect.bisect_right(h.keys, k) - 1, k[0]) for k in want]
                total += len(wl)
                if wl != got:
                    i = next((i for i, (x, y) in enumerate(zip(wl, got)) if x != y), min(len(wl), len(got)))
                    err(t, 'wake-' + at, 'event %d of the signal: expected (step, ns) %s, got %s; changes %s' % (i, wl[i:i + 2], got[i:i + 2], hs(wl[i][0] if i < len(wl) else got[i][0])))
        if not ts[1:]:
            s = rd('drv.bin')
            for i in range(len(wk)):
                key = h.keys[i + 1]
                e0, e1 = h.at('e0', key), h.at('e1', key)
                want = (e0, e1 * 2 + e0, e0 + 2, e1 * 2 + e0, 1)
                if s[i * 5:i * 5 + 5] != want:
                    err(ts[0], 'driving_value', "step %d: a, v, m, w'driving_value, a'driving: expected %s got %s" % (i + 1, want, s[i * 5:i * 5 + 5]))
            total += 5 * len(wk)
        if not errs:
            shutil.rmtree(d)
        return [(('value', t, at, '%d wrong; first %s' % tuple(e))) for (t, at), e in errs.items()], total, d, args

    total = steps = 0
    seen = {}
    for (ts, ats, wakes, wk, opts), (bad, tot, d, args) in zip(tasks, c.pmap(one, list(enumerate(tasks)))):
        total += tot
        steps += len(wk)
        for what, t, at, text in bad:
            if at == 'last_value:per-element':
                key = at
                if key in c.known:
                    c.violation(key, text)
                    continue
            key = '%s:%s:%s%s%s' % (what, t.replace(' ', ''), at, ':alone' if len(ats) == 2 else ':simple' if len(ats) == len(SIMPLE) else '', ':' + opts[0] if opts else '')
            seen[at] = seen.get(at, 0) + 1
            if os.environ.get('VERIF_ALL'):
                print(key, len(ts), text[:700])
            elif seen[at] <= 3 or key in c.known:
                c.violation(key, "%s'%s (%d signals observed, %s): %s" % (t, at, len(ts), ' '.join(opts), text),
                            {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
    c.finish({'states': 27 ** L, 'transitions': steps, 'traces_validated_against_impl': len(tasks), 'attribute_values_compared': total,
              'targets': len(TG), 'attributes': len(SIMPLE) + len(IMPLICIT) + 2, 'exhaustive': True,
              'samples': [expr(t, a) for t in list(TG)[:4] for a in ('last_value', 'stable1')]},
             ["'stable(T) and 'quiet(T) follow their definition (no event or activity for T), delta cycles are counted by the stimulus"])


if __name__ == '__main__':
    vf.main(main)
