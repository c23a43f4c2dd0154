#!/usr/bin/env python3
"""P01: the value of a driver over time follows the projected-waveform rules.

Every sequence of up to three assignments from an alphabet of transport,
inertial and reject assignments with one or two waveform elements, separated by
every gap, is executed by real nvc; every transaction it performs is compared
with an explicit-state model of LRM 10.5.2.2.  Model states are memoised, so
the run also reports how many distinct projected waveforms were reached."""
import os, sys, struct, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

GAPS = [('null', None), ('wait for 0 ns', 0), ('wait for 1 ns', 1), ('wait for 2 ns', 2)]
T, I, R = 0, 1, 2


def ops1(nv, delays=(0, 1, 2, 3)):
    """One-element assignments: (form, reject, ((delay, value),))."""
    out = []
    for d in delays:
        for v in range(nv):
            out.append((T, 0, ((d, v),)))
            out.append((I, d, ((d, v),)))
            for r in range(0, d):
                out.append((R, r, ((d, v),)))
    return out


def ops2(nv, delays=(0, 1, 2, 3)):
    out = []
    for d1, d2 in itertools.combinations(delays, 2):
        for v1 in range(nv):
            for v2 in range(nv):
                w = ((d1, v1), (d2, v2))
                out.append((T, 0, w))
                out.append((I, d1, w))
                for r in range(0, d1):
                    out.append((R, r, w))
    return out


def assign(cur, pend, op):
    """LRM 10.5.2.2 on one scalar driver; pend = ((dt, v), ...) relative to now."""
    form, r, wave = op
    first = wave[0][0]
    old = [x for x in pend if x[0] < first]
    if form != T:
        marked = [x[0] < first - r for x in old]
        nxt = wave[0]
        for i in range(len(old) - 1, -1, -1):
            # unmarked and immediately precedes a marked transaction of equal value
            if not marked[i]:
                follow = old[i + 1] if i + 1 < len(old) else nxt
                fm = marked[i + 1] if i + 1 < len(old) else True
                if fm and follow[1] == old[i][1]:
                    marked[i] = True
        old = [x for x, m in zip(old, marked) if m]
    return tuple(old) + tuple(wave)


class Model:
    """Explicit-state model: state = (current value, pending) with memoised moves."""
    def __init__(self, ops, conv=lambda v: v):
        self.ops, self.memo, self.states, self.conv = ops, {}, {(0, ())}, conv

    def move(self, st, o, g):
        k = (st, o, g)
        m = self.memo.get(k)
        if m is not None:
            return m
        cur, pend = st
        if o is not None:
            pend = assign(cur, pend, self.ops[o])
        outs = []
        adv = GAPS[g][1] if g is not None else 20
        if adv is not None:
            rest = []
            for dt, v in pend:
                if dt <= adv:
                    outs.append((dt, v, int(v != cur)))
                    cur = v
                else:
                    rest.append((dt - adv, v))
            # a transaction scheduled with zero delay takes effect in the next delta
            pend = tuple(rest)
        m = ((cur, pend), tuple(outs), adv or 0)
        self.memo[k] = m
        self.states.add(m[0])
        return m

    def run(self, seq):
        """seq: [(op, gap)...]; returns [(time, value, event)...]."""
        st, t, log = (0, ()), 0, []
        for o, g in seq:
            st, outs, adv = self.move(st, o, g)
            log += [(t + dt, v, e) for dt, v, e in outs]
            t += adv
        st, outs, adv = self.move(st, None, None)
        log += [(t + dt, v, e) for dt, v, e in outs]
        return log


# type name, declaration, value expressions
TYPES = {
    'bus': ('rtri bus', ['v0', 'v1', 'null']),
    'bit': ('bit', ["'0'", "'1'"]),
    'bool': ('boolean', ['false', 'true']),
    'int': ('integer', ['0', '1', '16777216']),
    'time': ('delay_length', ['0 ns', '4294967296 fs', '1 fs']),
    'real': ('real', ['0.0', '1.0', '-1.0']),
    'bv8': ('bit_vector(7 downto 0)', ['X"00"', 'X"80"', 'X"01"']),
    'bv9': ('bit_vector(8 downto 0)', ['"000000000"', '"100000000"', '"000000001"']),
    'iv3': ('ivec(0 to 2)', ['(0, 0, 0)', '(0, 0, 1)', '(256, 0, 0)']),
    'res': ('std_logic', ["'0'", "'1'", "'Z'"]),
}

HEAD = '''package dt is
  type ivec is array (natural range <>) of integer;
  type ifile is file of integer;
  type op_t is record f, r, d1, d2, v1, v2 : integer; end record;
  type ops_t is array (natural range <>) of op_t;
  constant NO : integer := %(no)d;
  constant OPS : ops_t(0 to NO - 1) := (
%(ops)s);
end package;
'''

EXEC = '''      case o.f is
      when 6 => %(s)s <= val(o.v1);
      when 0 => %(s)s <= transport val(o.v1) after o.d1 * %(u)s;
      when 1 => %(s)s <= val(o.v1) after o.d1 * %(u)s;
      when 2 => %(s)s <= reject o.r * %(u)s inertial val(o.v1) after o.d1 * %(u)s;
      when 3 => %(s)s <= transport val(o.v1) after o.d1 * %(u)s, val(o.v2) after o.d2 * %(u)s;
      when 4 => %(s)s <= val(o.v1) after o.d1 * %(u)s, val(o.v2) after o.d2 * %(u)s;
      when others => %(s)s <= reject o.r * %(u)s inertial val(o.v1) after o.d1 * %(u)s, val(o.v2) after o.d2 * %(u)s;
      end case;
'''


def execs(style, decl, u):
    if style == 'plain':
        return dict(exec=EXEC % dict(s='s', u=u), proc='')
    # the assignment is made by a procedure through a signal parameter
    body = EXEC % dict(s='x', u=u)
    return dict(exec='      go(s, o);\n',
                proc='  procedure go(signal x : out %s; o : op_t) is\n  begin\n%s  end procedure;\n' % (decl, body))


def vhdl_ops(ops):
    rows = []
    for f, r, w in ops:
        if f == I and w[0][0] == 0 and len(w) == 1:
            f = 6       # no after clause at all
        d2, v2 = w[1] if len(w) > 1 else (0, 0)
        rows.append('    (%d, %d, %d, %d, %d, %d)' % (f + 3 * (len(w) - 1), r, w[0][0], d2, w[0][1], v2))
    return ',\n'.join(rows)


def design_a(ty, ops, nops, mon, u='1 ns', style='plain'):
    """One long-lived signal; all cases in sequence, reset in between."""
    decl, vals = TYPES[ty]
    return (HEAD % dict(no=len(ops), ops=vhdl_ops(ops))) + '''
%(ieee)suse work.dt.all;
entity t is generic (LO, HI : integer); end entity;
architecture a of t is
  function val(i : integer) return %(decl0)s is
  begin
    case i is
%(cases)s
    end case;
  end function;
  function num(v : %(decl0)s) return integer is
  begin
%(nums)s
    return 99;
  end function;
  signal s : %(decl)s := %(v0)s;
  signal base : time := 0 ns;
  file f : ifile open write_mode is "out.bin";
begin
  drv: process
%(proc)s    variable o : op_t;
    variable c : integer;
    variable gap : integer;
  begin
    for i in LO to HI loop
      base <= now;
      write(f, -1 - i);
      c := i;
      for k in 1 to %(nops)d loop
        o := OPS(c mod NO); c := c / NO;
%(exec)s        if k < %(nops)d then
          gap := c mod 4; c := c / 4;
          case gap is
          when 0 => null;
          when 1 => wait for 0 ns;
          when 2 => wait for 1 * %(u)s;
          when others => wait for 2 * %(u)s;
          end case;
        end if;
      end loop;
      wait for 10 * %(u)s;
      write(f, -2000000000);
      s <= transport %(v0)s;
      wait for 10 * %(u)s;
    end loop;
    wait;
  end process;
  mon: process
  begin
    wait on %(mon)s;
    write(f, ((now - base) / (%(u)s)) * 256 + num(s) * 2 + boolean'pos(s'event));
  end process;
end architecture;
''' % dict(ieee='library ieee; use ieee.std_logic_1164.all; ' if ty == 'res' else '',
           decl=decl, decl0=decl.split('(')[0], v0=vals[0], nops=nops,
           cases='\n'.join('      when %s => return %s;' % (i if i < len(vals) - 1 else 'others', v)
                           for i, v in enumerate(vals)),
           nums='\n'.join('    if v = %s then return %d; end if;' % (v, i) for i, v in enumerate(vals)),
           u=u, **execs(style, decl, u), mon="s'transaction" if mon == 't' else 's')


def design_b(ty, ops, nops, mon, u='1 ns', style='plain'):
    """A fresh signal and process for every case (first-use paths)."""
    decl, vals = TYPES[ty]
    return (HEAD % dict(no=len(ops), ops=vhdl_ops(ops))) + '''
%(ieee)suse work.dt.all;
entity t is generic (LO, HI : integer); end entity;
architecture a of t is
  function val(i : integer) return %(decl0)s is
  begin
    case i is
%(cases)s
    end case;
  end function;
  function num(v : %(decl0)s) return integer is
  begin
%(nums)s
    return 99;
  end function;
  file f : ifile open write_mode is "out.bin";
begin
  g: for i in LO to HI generate
    signal s : %(decl)s := %(v0)s;
  begin
  drv: process
%(proc)s    variable o : op_t;
    variable c : integer := i;
    variable gap : integer;
  begin
      for k in 1 to %(nops)d loop
        o := OPS(c mod NO); c := c / NO;
%(exec)s        if k < %(nops)d then
          gap := c mod 4; c := c / 4;
          case gap is
          when 0 => null;
          when 1 => wait for 0 ns;
          when 2 => wait for 1 * %(u)s;
          when others => wait for 2 * %(u)s;
          end case;
        end if;
      end loop;
    wait;
  end process;
  mon: process
  begin
    wait on %(mon)s;
    write(f, i);
    write(f, (now / (%(u)s)) * 256 + num(s) * 2 + boolean'pos(s'event));
  end process;
  end generate;
end architecture;
''' % dict(ieee='library ieee; use ieee.std_logic_1164.all; ' if ty == 'res' else '',
           decl=decl, decl0=decl.split('(')[0], v0=vals[0], nops=nops,
           cases='\n'.join('      when %s => return %s;' % (i if i < len(vals) - 1 else 'others', v)
                           for i, v in enumerate(vals)),
           nums='\n'.join('    if v = %s then return %d; end if;' % (v, i) for i, v in enumerate(vals)),
           u=u, **execs(style, decl, u), mon="s'transaction" if mon == 't' else 's')


def decode(i, no, nops):
    seq, c = [], i
    for k in range(nops):
        o = c % no
        c //= no
        if k < nops - 1:
            g = c % 4
            c //= 4
        else:
            g = 2       # whatever: followed by draining
        seq.append((o, g))
    return seq


def describe(ops, seq, vals):
    s = []
    for k, (o, g) in enumerate(seq):
        f, r, w = ops[o]
        mech = ('transport ', '', 'reject %d ns inertial ' % r)[f]
        s.append('s <= ' + mech + ', '.join('%s after %d ns' % (vals[v], d) for d, v in w) + ';')
        if k < len(seq) - 1 and g:
            s.append(GAPS[g][0] + ';')
    return ' '.join(s)


def judge(a):
    """Compare one output file with the model (runs in a worker process)."""
    fam, path, lo, hi, ops, nops, mon = a
    data = open(path, 'rb').read()
    vals = struct.unpack('<%di' % (len(data) // 4), data)
    got = {}
    if fam[-1] == 'a':
        cur = None
        for x in vals:
            if x == -2000000000:
                cur = None
            elif x < 0:
                cur = got[-1 - x] = []
            elif cur is not None:
                cur.append(x)
    else:
        for i in range(0, len(vals) - 1, 2):
            got.setdefault(vals[i], []).append(vals[i + 1])
    m = Model(ops)
    bad, obs = [], set()
    no = len(ops)
    for i in range(lo, hi + 1):
        want = [t * 256 + v * 2 + e for t, v, e in m.run(decode(i, no, nops)) if mon == 't' or e]
        g = got.get(i, [])
        obs.add(tuple(g))
        if g != want:
            bad.append((i, want, g))
    return bad, len(m.states), len(m.memo), len(obs)


# ---- composite targets: whole, element and slice assignments -----------------

CTYPES = {      # element type, array type, two element values
    'bit': ('bit', 'bit_vector', ["'0'", "'1'"]),
    'int': ('integer', 'ivec', ['0', '16777216']),
    'time': ('time', 'tvec', ['0 ns', '4294967296 fs']),
}


def cops(n, delays, forms, targets):
    """(form, reject, first, last, (delay, bits...)) ; one-element waveforms."""
    out = []
    for lo, hi in targets:
        for d in delays:
            for bits in itertools.product((0, 1), repeat=hi - lo + 1):
                for f in forms:
                    if f == T:
                        out.append((T, 0, lo, hi, d, bits))
                    elif f == I and d > 0:
                        out.append((I, d, lo, hi, d, bits))
                    elif f == R and d > 1:
                        out.append((R, d - 1, lo, hi, d, bits))
    return out


def design_c(ty, n, ops, nops, mech):
    el, arr, ev = CTYPES[ty]
    decl = '%s(0 to %d)' % (arr, n - 1) if mech == 'array' else 'rec'
    forms = {}
    stm = []
    for k, (f, r, lo, hi, d, bits) in enumerate(ops):
        if mech == 'array':
            tgt = 's' if (lo, hi) == (0, n - 1) else 's(%d)' % lo if lo == hi else 's(%d to %d)' % (lo, hi)
        else:
            tgt = 's' if (lo, hi) == (0, n - 1) else 's.f%d' % lo
        val = ev[bits[0]] if lo == hi else '(' + ', '.join(ev[b] for b in bits) + ')'
        stm.append('      when %d => %s <= %s%s after %d ns;' % (
            k, tgt, ('transport ', '', 'reject %d ns inertial ' % r)[f], val, d))
    rd = [('s(%d)' if mech == 'array' else 's.f%d') % k for k in range(n)]
    enc = ' + '.join("%d * boolean'pos(%s = %s)" % (1 << k, rd[k], ev[1]) for k in range(n))
    rec = ' '.join('f%d : %s;' % (k, el) for k in range(n))
    return '''package dt is
  type ifile is file of integer;
  type ivec is array (natural range <>) of integer;
  type tvec is array (natural range <>) of time;
  type rec is record %(rec)s end record;
end package;
use work.dt.all;
entity t is generic (LO, HI : integer); end entity;
architecture a of t is
  file f : ifile open write_mode is "out.bin";
begin
  g: for i in LO to HI generate
    signal s : %(decl)s := (%(init)s);
  begin
  drv: process
    variable c, gap : integer := i;
  begin
    for k in 1 to %(nops)d loop
      case c mod %(no)d is
%(stm)s
      when others => null;
      end case;
      c := c / %(no)d;
      if k < %(nops)d then
        gap := c mod 4; c := c / 4;
        case gap is
        when 0 => null;
        when 1 => wait for 0 ns;
        when 2 => wait for 1 ns;
        when others => wait for 2 ns;
        end case;
      end if;
    end loop;
    wait;
  end process;
  mon: process
  begin
    wait on s;
    write(f, i);
    write(f, (now / 1 ns) * 256 + %(enc)s);
  end process;
  end generate;
end architecture;
''' % dict(decl=decl, nops=nops, no=len(ops), stm='\n'.join(stm), enc=enc, rec=rec,
           init=', '.join([ev[0]] * n))


def run_c(n, ops, seq, mode, states=None):
    """mode 'lrm': every scalar subelement is its own driver.
       mode 'group': rejection is decided for whole groups of subelements, as
       nvc does for the parts of a signal it has not split."""
    groups = [(0, n - 1)]
    st = {(0, n - 1): ((0,) * n, ())}
    if mode == 'lrm':
        groups = [(k, k) for k in range(n)]
        st = {(k, k): ((0,), ()) for k in range(n)}
    t, log = 0, []

    def split(at):      # ensure a boundary before subelement `at`
        nonlocal groups
        for g in groups:
            if g[0] < at <= g[1]:
                cur, pend = st.pop(g)
                j = at - g[0]
                a, b = (g[0], at - 1), (at, g[1])
                st[a] = (cur[:j], tuple((d, v[:j]) for d, v in pend))
                st[b] = (cur[j:], tuple((d, v[j:]) for d, v in pend))
                groups = sorted([x for x in groups if x != g] + [a, b])
                return
    seq = list(seq) + [(None, None)]
    for o, gp in seq:
        if o is not None:
            f, r, lo, hi, d, bits = ops[o]
            split(lo)
            split(hi + 1)
            for g in groups:
                if lo <= g[0] and g[1] <= hi:
                    cur, pend = st[g]
                    v = bits[g[0] - lo:g[1] - lo + 1]
                    st[g] = (cur, assign(cur, pend, (f, r, ((d, v),))))
        adv = GAPS[gp][1] if gp is not None else 20
        if adv is not None:
            times = sorted({x[0] for g in groups for x in st[g][1] if x[0] <= adv})
            for tt in times:
                ev = False
                for g in groups:
                    cur, pend = st[g]
                    if pend and pend[0][0] == tt:
                        ev |= pend[0][1] != cur
                        st[g] = (pend[0][1], pend[1:])
                if ev:
                    enc = 0
                    for g in groups:
                        for k, b in enumerate(st[g][0]):
                            enc |= b << (g[0] + k)
                    log.append((t + tt) * 256 + enc)
            for g in groups:
                cur, pend = st[g]
                st[g] = (cur, tuple((d - adv, v) for d, v in pend))
            t += adv
        if states is not None:
            states.add(tuple(sorted(st.items())))
    return log


def judge_c(a):
    path, lo, hi, n, ops, nops = a
    data = open(path, 'rb').read()
    vals = struct.unpack('<%di' % (len(data) // 4), data)
    got = {}
    for i in range(0, len(vals) - 1, 2):
        got.setdefault(vals[i], []).append(vals[i + 1])
    bad, group, states, obs = [], [], set(), set()
    for i in range(lo, hi + 1):
        seq = decode(i, len(ops), nops)
        seq[-1] = (seq[-1][0], 0)
        want = run_c(n, ops, seq, 'lrm', states)
        g = got.get(i, [])
        obs.add(tuple(g))
        if g != want:
            if g == run_c(n, ops, seq, 'group'):
                group.append((i, want, g))
            else:
                bad.append((i, want, g))
    return bad, group, len(states), len(obs)


def describe_c(ops, seq):
    s = []
    for k, (o, g) in enumerate(seq):
        f, r, lo, hi, d, bits = ops[o]
        s.append('s(%d to %d) <= %s%s after %d ns;' % (lo, hi, ('transport ', '', 'reject %d ns inertial ' % r)[f], bits, d))
        if k < len(seq) - 1 and g:
            s.append(GAPS[g][0] + ';')
    return ' '.join(s)


# ---- guarded signals: null transactions ---------------------------------------

def design_d(kind, ops, nops, fresh):
    """bus signal whose resolution returns value#2 when every driver is off."""
    names = ["v0", "v1", "null"]
    stm = []
    for k, (f, r, w) in enumerate(ops):
        stm.append('      when %d => s <= %s%s;' % (k, ('transport ', '', 'reject %d ns inertial ' % r)[f],
                   ', '.join('%s after %d ns' % (names[v], d) for d, v in w)))
    body = '''      for k in 1 to %(nops)d loop
        case c mod %(no)d is
%(stm)s
        when others => null;
        end case;
        c := c / %(no)d;
        if k < %(nops)d then
          gap := c mod 4; c := c / 4;
          case gap is
          when 0 => null;
          when 1 => wait for 0 ns;
          when 2 => wait for 1 ns;
          when others => wait for 2 ns;
          end case;
        end if;
      end loop;
''' % dict(nops=nops, no=len(ops), stm='\n'.join(stm))
    head = '''package dt is
  type ifile is file of integer;
  type tri is (v0, v1, off, many);
  type tri_vec is array (natural range <>) of tri;
  function resolve(x : tri_vec) return tri;
  subtype rtri is resolve tri;
end package;
package body dt is
  function resolve(x : tri_vec) return tri is
  begin
    if x'length = 0 then return off; elsif x'length > 1 then return many; end if;
    return x(x'left);
  end function;
end package body;
use work.dt.all;
entity t is generic (LO, HI : integer); end entity;
architecture a of t is
  file f : ifile open write_mode is "out.bin";
'''
    if fresh:
        return head + '''begin
  g: for i in LO to HI generate
    signal s : rtri %s := v0;
  begin
  drv: process
    variable c, gap : integer := i;
  begin
%s    wait;
  end process;
  mon: process
  begin
    wait on s'transaction;
    write(f, i);
    write(f, (now / 1 ns) * 256 + tri'pos(s) * 2 + boolean'pos(s'event));
  end process;
  end generate;
end architecture;
''' % (kind, body)
    return head + '''  signal s : rtri %s := v0;
  signal base : time := 0 ns;
begin
  drv: process
    variable c, gap : integer;
  begin
    for i in LO to HI loop
      base <= now;
      write(f, -1 - i);
      c := i;
%s      wait for 10 ns;
      write(f, -2000000000);
      s <= transport v0;
      wait for 10 ns;
    end loop;
    wait;
  end process;
  mon: process
  begin
    wait on s'transaction;
    write(f, ((now - base) / 1 ns) * 256 + tri'pos(s) * 2 + boolean'pos(s'event));
  end process;
end architecture;
''' % (kind, body)


def fmt(l):
    return ', '.join('%d ns: value#%d%s' % (x >> 8, (x & 255) >> 1, ' event' if x & 1 else '') for x in l) or '(nothing)'


def fmtc(l):
    return ', '.join('%d ns: bits %s' % (x >> 8, bin(x & 255)) for x in l) or '(nothing)'


def main():
    c = vf.Check('P01', 'model_checking')
    c.build()
    jobs = []       # (fam, type, ops, nops, mon, mode, unit, style)
    o1, o12 = {}, {}
    for nv in (2, 3):
        o1[nv] = ops1(nv)
        o12[nv] = o1[nv] + ops2(nv)
    sm, sm12 = {}, {}
    for nv in (2, 3):
        sm[nv] = ops1(nv, (0, 1, 2))
        sm12[nv] = sm[nv] + ops2(nv, (0, 1, 2))

    def add(fam, ty, ops, nops, mon, mode, u='1 ns', style='plain'):
        jobs.append((fam, ty, ops, nops, mon, mode, u, style))
    # family a: one signal, all sequences
    add('a', 'bit', o12[2], 2, 't', 'aot')
    add('a', 'bit', o12[2], 2, 'e', 'jit', '1 us', 'proc')
    add('a', 'int', o1[3], 2, 't', 'jit', '1 fs')
    add('a', 'time', o1[3], 2, 't', 'aot', '1 us', 'proc')
    add('a', 'real', o1[3], 2, 't', 'aot', '1 ns')
    add('a', 'bv8', o1[3], 2, 't', 'jit', '1 ns', 'proc')
    add('a', 'bv9', o12[3], 2, 't', 'jit')
    add('a', 'iv3', o1[3], 2, 't', 'aot', '1 ps', 'proc')
    add('a', 'res', o1[3], 2, 't', 'jit')
    add('a', 'bit', o1[2], 3, 't', 'aot')
    add('a', 'bit', sm12[2], 3, 't', 'aot')
    add('a', 'iv3', sm[3], 3, 'e', 'aot')
    add('a', 'bv9', sm[3], 3, 't', 'jit')
    # family b: a fresh signal per sequence
    add('b', 'bit', sm12[2], 2, 'e', 'jit')
    add('b', 'bit', sm12[2], 2, 't', 'jit')
    add('b', 'bit', ops1(2, (0, 1)), 3, 'e', 'jit', '1 ns', 'proc')
    add('b', 'bv9', sm[3], 2, 'e', 'jit')
    add('b', 'bv9', sm[3], 2, 't', 'aot', '1 ns', 'proc')
    add('b', 'int', sm[3], 2, 'e', 'jit')
    add('b', 'res', sm[3], 2, 'e', 'jit')
    # guarded signals: value#2 is the null transaction
    add('da', 'bus', ops1(3), 2, 't', 'jit')
    add('da', 'bus', sm12[3], 2, 't', 'aot')
    add('db', 'bus', sm[3], 2, 't', 'jit')
    cjobs = []      # (type, n, ops, nops, mech)
    w2 = [(0, 1), (0, 0), (1, 1)]
    w3 = [(0, 2), (0, 1), (1, 2), (1, 1)]
    cjobs.append(('bit', 2, cops(2, (0, 1, 2), (T, I), w2), 2, 'array'))
    cjobs.append(('bit', 3, cops(3, (0, 2), (T, I), w3), 2, 'array'))
    cjobs.append(('int', 2, cops(2, (0, 1, 2), (T, I), w2), 2, 'record'))
    cjobs.append(('time', 2, cops(2, (0, 1, 2), (T, I), w2), 2, 'array'))
    cjobs.append(('bit', 2, cops(2, (0, 2), (T, I), w2), 3, 'array'))
    if c.thorough:
        add('a', 'bit', o12[2], 3, 't', 'aot')
        add('a', 'bit', sm[2], 4, 't', 'aot')
        for ty in ('bool', 'real', 'res', 'iv3', 'bv9', 'int', 'time'):
            nv = len(TYPES[ty][1])
            add('a', ty, o12[nv], 2, 't', 'aot', '1 ps')
            add('b', ty, sm12[nv], 2, 'e', 'jit')
            add('a', ty, sm[nv], 3, 't', 'aot', '1 ns', 'proc')
        add('b', 'bit', sm[2], 3, 'e', 'jit')
        add('b', 'bv9', sm[2], 3, 'e', 'jit')
        cjobs.append(('time', 3, cops(3, (0, 1, 2), (T, I, R), w3), 2, 'array'))
        cjobs.append(('int', 2, cops(2, (1, 2), (T, I), w2), 3, 'array'))
        cjobs.append(('time', 2, cops(2, (0, 2), (T, I), w2), 3, 'record'))
    tasks = []
    for j, (fam, ty, ops, nops, mon, mode, u, style) in enumerate(jobs):
        n = len(ops) ** nops * 4 ** (nops - 1)
        step = 60000 if fam[-1] == 'a' else 1500
        step = min(step, max(1, -(-n // 8)))
        for lo in range(0, n, step):
            tasks.append((j, lo, min(lo + step, n) - 1))

    def one(t):
        j, lo, hi = t
        fam, ty, ops, nops, mon, mode, u, style = jobs[j]
        d = c.dir('j%d_%d' % (j, lo))
        if fam[0] == 'd':
            src = design_d(ty, ops, nops, fam == 'db')
        else:
            src = (design_a if fam == 'a' else design_b)(ty, ops, nops, mon, u, style)
        open(d + '/t.vhd', 'w').write(src)
        g = ['-g', 'LO=%d' % lo, '-g', 'HI=%d' % hi]
        if mode == 'aot' and ty != 'res':
            args = ['-a', 't.vhd', '-e'] + g + ['t', '-r']
        else:
            args = ['-a', 't.vhd', '-e', '--jit', '--no-save'] + g + ['t', '-r']
        r = c.nvc(args, d, timeout=300)
        return r, d, args

    total = states = trans = outcomes = 0
    samples = []
    from concurrent.futures import ProcessPoolExecutor
    results = c.pmap(one, tasks)
    c.log('simulated %d designs' % len(tasks))
    work = []
    for (j, lo, hi), (r, d, args) in zip(tasks, results):
        fam, ty, ops, nops, mon, mode, u, style = jobs[j]
        if r.rc != 0 or r.timed_out:
            r2 = c.nvc(args, d, timeout=600)
            if r2.rc != 0 or r2.timed_out:
                c.violation('crash-%s-%s' % (fam, ty), 'simulation of driver sequences fails: rc=%s\n%s' % (r2.rc, r2.out[-1500:]),
                            {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': ' '.join(['nvc'] + args)})
                continue
        work.append(((j, lo, hi, d, args), (fam, d + '/out.bin', lo, hi, ops, nops, mon)))
    with ProcessPoolExecutor(vf.JOBS) as ex:
        verdicts = list(ex.map(judge, [w[1] for w in work]))
    ctasks = []
    for j, (ty, n, ops, nops, mech) in enumerate(cjobs):
        tot = len(ops) ** nops * 4 ** (nops - 1)
        for lo in range(0, tot, 1500):
            ctasks.append((j, lo, min(lo + 1500, tot) - 1))

    def onec(t):
        j, lo, hi = t
        ty, n, ops, nops, mech = cjobs[j]
        d = c.dir('c%d_%d' % (j, lo))
        open(d + '/t.vhd', 'w').write(design_c(ty, n, ops, nops, mech))
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save', '-g', 'LO=%d' % lo, '-g', 'HI=%d' % hi, 't', '-r']
        r = c.nvc(args, d, timeout=300)
        if r.rc != 0:
            r = c.nvc(args, d, timeout=600)
        return r, d, args
    cres = c.pmap(onec, ctasks)
    c.log('simulated %d composite designs' % len(ctasks))
    cwork = []
    for t, (r, d, args) in zip(ctasks, cres):
        if r.rc != 0 or r.timed_out:
            c.violation('crash-composite', 'simulation fails: rc=%s\n%s' % (r.rc, r.out[-1500:]),
                        {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': ' '.join(['nvc'] + args)})
        else:
            ty, n, ops, nops, mech = cjobs[t[0]]
            cwork.append((t, d, args, (d + '/out.bin', t[1], t[2], n, ops, nops)))
    with ProcessPoolExecutor(vf.JOBS) as ex:
        cver = list(ex.map(judge_c, [w[3] for w in cwork]))
    cst = {}
    for (t, d, args, _), (bad, group, ns, no_) in zip(cwork, cver):
        ty, n, ops, nops, mech = cjobs[t[0]]
        total += t[2] - t[1] + 1
        trans += (t[2] - t[1] + 1) * nops
        cst[t[0]] = max(cst.get(t[0], 0), ns)
        outcomes += no_
        for kind, lst in (('composite', bad[:3]), ('composite-whole-rejection', group[:1])):
            for i, want, got in lst:
                c.violation('%s' % kind, '%s %s: %s\n  expected %s\n  observed %s' % (
                    ty, mech, describe_c(ops, decode(i, len(ops), nops)), fmtc(want), fmtc(got)),
                    {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args) + '\ncase index %d' % i})
    states += sum(cst.values())
    st = {}
    for ((j, lo, hi, d, args), _), (bad, ns, nt, no_) in zip(work, verdicts):
        fam, ty, ops, nops, mon, mode, u, style = jobs[j]
        total += hi - lo + 1
        a = st.setdefault(j, [0, 0, 0])
        a[0], a[1], a[2] = max(a[0], ns), max(a[1], nt), a[2] + no_
        if len(samples) < 6 and lo == 0:
            i = (hi * 7) // 11
            samples.append({'type': ty, 'case': describe(ops, decode(i, len(ops), nops), TYPES[ty][1])})
        for i, want, got in bad[:3]:
            seq = decode(i, len(ops), nops)
            txt = '%s: %s\n  expected %s\n  observed %s\n  (%d of %d sequences in this job differ)' % (
                ty, describe(ops, seq, TYPES[ty][1]), fmt(want), fmt(got), len(bad), hi - lo + 1)
            c.violation('seq-%s-%s' % (fam, ty), txt, {'t.vhd': ('copy', d + '/t.vhd'),
                        'cmd.txt': 'nvc --std=2008 ' + ' '.join(args) + '\ncase index %d' % i})
    for a in st.values():
        states += a[0]
        trans += a[1]
        outcomes += a[2]
    c.finish({'states': states, 'transitions': trans, 'traces_validated_against_impl': total,
              'distinct_outcomes': outcomes, 'exhaustive': True,
              'bounds': 'delays 0..3 ns, 2-3 values, sequences of 2-%d assignments, gaps {same,delta,1ns,2ns}' % (4 if c.thorough else 3),
              'samples': samples},
             ['LRM 10.5.2.2 applied to one driver; composite values in this check change as a whole'])


if __name__ == '__main__':
    vf.main(main)
