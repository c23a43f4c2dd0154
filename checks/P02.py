#!/usr/bin/env python3
"""P02: signal values are the resolution of all their sources.

Topologies (processes, out/inout/buffer/in ports, nesting, whole, per-element
and sliced association, conversions) are enumerated.  For each of them the
values of all drivers are taken along a walk that makes every transition
between driver states, and the value seen at every level of the hierarchy is
compared with the driving and effective values of LRM 14.7.3."""
import os, sys, struct, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

M = 97


def res(l):
    """Not associative, not idempotent, independent of the order."""
    return (sum(x * x + 3 * x + 1 for x in l) + 7 * len(l)) % M


def up(x):
    return (5 * x + 3) % M


def down(x):
    return (11 * x + 8) % M


PKG = '''package pk is
  type ivec is array (natural range <>) of integer;
  type ifile is file of integer;
  function resf(v : ivec) return integer;
  subtype rint is resf integer;
  type rvec is array (natural range <>) of rint;
  type uvec is array (natural range <>) of integer;
  type urec is record a, b : integer; end record;
  type rrec is record a, b : rint; end record;
  type rnest is record v : rvec(0 to 1); end record;
  type uvv is array (natural range <>) of uvec(0 to 1);
  function resw(v : uvv) return uvec;
  subtype wvec is resw uvec(0 to 1);
  type urr is array (natural range <>) of urec;
  function resr(v : urr) return urec;
  subtype wrec is resr urec;
  function up(x : integer) return integer;
  function down(x : integer) return integer;
  function upv(x : rvec) return rvec;
  function downv(x : rvec) return rvec;
  signal step : integer := 0;
  signal smp : boolean := false;
  constant NV : integer := %(nv)d;
  constant WALK : ivec := (%(walk)s);
  function val(d, l, i : integer) return integer;
end package;
package body pk is
  function sc(v : ivec) return integer is
    variable r : integer := 7 * v'length;
  begin
    for i in v'range loop r := r + v(i) * v(i) + 3 * v(i) + 1; end loop;
    return r mod 97;
  end function;
  function resf(v : ivec) return integer is
  begin
    return sc(v);
  end function;
  function resw(v : uvv) return uvec is
    variable c : ivec(v'range);
    variable r : uvec(0 to 1);
  begin
    for e in 0 to 1 loop
      for i in v'range loop c(i) := v(i)(e); end loop;
      r(e) := sc(c);
    end loop;
    return r;
  end function;
  function resr(v : urr) return urec is
    variable a, b : ivec(v'range);
  begin
    for i in v'range loop a(i) := v(i).a; b(i) := v(i).b; end loop;
    return (sc(a), sc(b));
  end function;
  function up(x : integer) return integer is begin return (5 * x + 3) mod 97; end function;
  function down(x : integer) return integer is begin return (11 * x + 8) mod 97; end function;
  function upv(x : rvec) return rvec is
    variable r : rvec(x'range);
  begin
    for i in x'range loop r(i) := up(x(i)); end loop;
    return r;
  end function;
  function downv(x : rvec) return rvec is
    variable r : rvec(x'range);
  begin
    for i in x'range loop r(i) := down(x(i)); end loop;
    return r;
  end function;
  function val(d, l, i : integer) return integer is
    variable w : integer := WALK(i) / (NV ** (d mod 8)) mod NV;
  begin
    return (w + l * (1 + d)) mod NV;
  end function;
end package body;
'''

# type: (number of leaves, subtype, leaf selectors, resolved per leaf or as a whole, default literal)
TY = {
    'S': (1, 'rint', [''], True),
    'U': (1, 'integer', [''], False),
    'V': (2, 'rvec(0 to 1)', ['(0)', '(1)'], True),
    'D': (2, 'rvec(1 downto 0)', ['(1)', '(0)'], True),
    'V3': (3, 'rvec(0 to 2)', ['(0)', '(1)', '(2)'], True),
    'R': (2, 'rrec', ['.a', '.b'], True),
    'N': (2, 'rnest', ['.v(0)', '.v(1)'], True),
    'W': (2, 'wvec', ['(0)', '(1)'], True),
    'Q': (2, 'wrec', ['.a', '.b'], True),
    'UV': (2, 'uvec(0 to 1)', ['(0)', '(1)'], False),
}


class Node:
    def __init__(self, ty, default, procs=(), insts=(), mode=None):
        """procs: [(leaves tuple)], insts: [(child, assoc)]"""
        self.ty, self.default, self.procs, self.insts, self.mode = ty, default, list(procs), list(insts), mode


def number(top):
    n, d = [0], [0]

    def f(x):
        x.id = n[0]
        n[0] += 1
        x.pd = []
        for p in x.procs:
            x.pd.append(d[0])
            d[0] += 1
        for c, a in x.insts:
            f(c)
    f(top)
    return n[0], d[0]


def lit(ty, vals):
    if TY[ty][0] == 1:
        return str(vals[0])
    if ty == 'N':
        return '(v => (%s))' % ', '.join(map(str, vals))
    return '(%s)' % ', '.join(map(str, vals))


def gen(x, stagger, guard):
    """Entity for the node, children first."""
    s = ''
    for c, a in x.insts:
        s += gen(c, stagger, guard)
    nl, sub, sel, _ = TY[x.ty]
    s += 'use work.pk.all;\nentity n%d is\n' % x.id
    df = lit(x.ty, [x.default + i for i in range(nl)])
    if x.mode:
        s += '  port (p : %s %s := %s);\n' % (x.mode, sub, df)
    s += 'end entity;\narchitecture a of n%d is\n  file f : ifile open write_mode is "n%d.bin";\n' % (x.id, x.id)
    if not x.mode:
        s += '  signal p : %s := %s;\n' % (sub, df)
    s += 'begin\n'
    for k, (lv, d) in enumerate(zip(x.procs, x.pd)):
        s += '  d%d: process\n  begin\n' % k
        for l in lv:
            s += '    p%s <= val(%d, %d, step);\n' % (sel[l], d, l)
        s += '    wait on step;\n'
        if stagger:
            s += '    for i in 1 to %d loop wait for 0 ns; end loop;\n' % (d if stagger == 1 else 4 - d)
        if guard:
            s += '    while %s loop wait on step; end loop;\n' % ' and '.join(
                'val(%d, %d, step) = val(%d, %d, step - 1)' % (d, l, d, l) for l in lv)
        s += '  end process;\n'
    for k, (c, (kind, m)) in enumerate(x.insts):
        cn, cs, csel, _ = TY[c.ty]
        if kind == 'whole':
            pm = 'p => p'
        elif kind == 'elem':           # formal leaves one by one
            pm = ', '.join('p%s => p%s' % (csel[i], sel[j]) for i, j in enumerate(m))
        elif kind == 'one':            # scalar formal, one leaf of the actual
            pm = 'p => p%s' % sel[m[0]]
        elif kind == 'slice':
            pm = 'p => p(%d to %d)' % (m[0], m[-1])
        elif kind == 'fslice':         # formal slices
            pm = 'p(0 to 0) => p(%d to %d), p(1 to 1) => p(%d to %d)' % (m[0], m[0], m[1], m[1])
        elif kind == 'conv':
            t = '' if cn == 1 else 'v'
            if c.mode == 'in':
                pm = 'p => down%s(p)' % t
            elif c.mode == 'inout':
                pm = 'up%s(p) => down%s(p)' % (t, t)
            else:
                pm = 'up%s(p) => p' % t
        elif kind == 'econv':          # conversion of single leaves
            pm = ', '.join(('p%s => down(p%s)' if c.mode == 'in' else 'up(p%s) => down(p%s)' if c.mode == 'inout'
                            else 'up(p%s) => p%s') % (csel[i], sel[j]) for i, j in enumerate(m))
        elif kind == 'open':
            pm = 'p => open'
        s += '  i%d: entity work.n%d port map (%s);\n' % (k, c.id, pm)
    s += '  mon: process\n  begin\n'
    for l in sel:
        s += '    write(f, p%s);\n' % l
    s += '    wait on smp;\n  end process;\n'
    if not x.mode:
        s += '''  clk: process
  begin
    for i in 1 to WALK'length - 1 loop
      wait for 1 ns; smp <= not smp;
      wait for 1 ns; step <= i;
    end loop;
    wait for 1 ns; smp <= not smp; wait;
  end process;
'''
    return s + 'end architecture;\n'


def drivers(x, get):
    """Driving value of every leaf of node x; get(driver, leaf)."""
    nl, sub, sel, resolved = TY[x.ty]
    src = [[] for _ in range(nl)]
    for lv, d in zip(x.procs, x.pd):
        for l in range(nl):
            if l in lv:
                src[l].append(get(x, d, l))
            elif x.ty in ('W', 'Q'):
                src[l].append(x.default + l)      # the driver exists for the whole
    for c, (kind, m) in x.insts:
        if c.mode == 'in':
            continue
        v = drivers(c, get)
        if kind == 'open':
            continue
        for i, j in enumerate(m):
            src[j].append(up(v[i]) if kind in ('conv', 'econv') else v[i])
    out = []
    for l in range(nl):
        if not src[l]:
            out.append(x.default + l)
        elif resolved:
            out.append(res(src[l]))
        else:
            out.append(src[l][0])
    x.dv = out
    return out


def effective(x, ev):
    """Value seen by readers in node x and below."""
    x.ev = ev
    for c, (kind, m) in x.insts:
        if c.mode in ('out', 'buffer') or kind == 'open':
            effective(c, c.dv if c.mode != 'in' else [c.default + i for i in range(TY[c.ty][0])])
        else:
            v = [ev[j] for j in m]
            effective(c, [down(y) for y in v] if kind in ('conv', 'econv') else v)


def nodes(x):
    yield x
    for c, a in x.insts:
        for y in nodes(c):
            yield y


def predict(top, walk, nv):
    out = {x.id: [] for x in nodes(top)}

    def snap(get):
        drivers(top, get)
        effective_in(top)
        effective(top, top.dv)
        for y in nodes(top):
            out[y.id] += y.ev

    def effective_in(x):
        for c, a in x.insts:
            if c.mode == 'in':
                c.dv = None
            effective_in(c)
    snap(lambda x, d, l: x.default + l)       # before any process has run
    for w in walk:
        snap(lambda x, d, l: (w // nv ** (d % 8) % nv + l * (1 + d)) % nv)
    return out


def walks(nd, nv, full):
    """A closed walk over all driver states: every ordered pair when small."""
    n = nv ** nd
    if n * n <= full:
        # Eulerian circuit of the complete digraph
        w = [0]
        used = [0] * n
        stack = [0]
        circ = []
        nxt = [0] * n
        while stack:
            v = stack[-1]
            while nxt[v] < n and nxt[v] == v:
                nxt[v] += 1
            if nxt[v] < n:
                u = nxt[v]
                nxt[v] += 1
                stack.append(u)
            else:
                circ.append(stack.pop())
        return circ[::-1], True
    # every state, every change of one driver
    nxt = {}
    for s in range(n):
        nxt[s] = [s - (s // nv ** d % nv) * nv ** d + v * nv ** d for d in range(nd) for v in range(nv) if v != s // nv ** d % nv]
    stack, circ = [0], []
    while stack:
        v = stack[-1]
        if nxt[v]:
            stack.append(nxt[v].pop())
        else:
            circ.append(stack.pop())
    return circ[::-1], False


def topologies(thorough):
    T = []

    def add(name, top):
        T.append((name, top))
    # 1. several drivers, whole or partial
    for ty in TY:
        n = TY[ty][0]
        leaves = tuple(range(n))
        whole = leaves
        maxd = 4 if TY[ty][3] else 1
        for k in range(0, maxd + 1):
            add('%s-%d-drivers' % (ty, k), Node(ty, 1, [whole] * k))
        if n > 1 and TY[ty][3] and ty not in ('W', 'Q'):
            parts = [p for r in range(1, n) for p in itertools.combinations(leaves, r)]
            for p in parts:
                add('%s-part-%s' % (ty, p), Node(ty, 2, [p]))
                add('%s-part-%s-whole' % (ty, p), Node(ty, 2, [p, whole]))
                for q in parts:
                    add('%s-parts-%s-%s' % (ty, p, q), Node(ty, 2, [p, q]))
                    if p <= q:
                        add('%s-parts-%s-whole-%s' % (ty, p, q), Node(ty, 2, [p, whole, q]))
    # 2. one or two ports with an own driver of the parent
    for ty in TY:
        n = TY[ty][0]
        lv = tuple(range(n))
        rs = TY[ty][3]
        for mode in ('out', 'inout', 'buffer', 'in'):
            for inner in ((0, 1, 2) if rs else (0, 1)):
                if mode == 'in' and inner:
                    continue
                for outer in (0, 1, 2) if rs else (0, 1):
                    if not rs and mode != 'in' and outer:
                        continue
                    for kind in ('whole', 'elem', 'open', 'conv', 'econv', 'fslice'):
                        if kind == 'elem' and n == 1 or kind == 'fslice' and ty not in ('V', 'UV'):
                            continue
                        if ty in ('W', 'Q') and kind != 'whole' and kind != 'open':
                            continue
                        if kind == 'conv' and ty not in ('S', 'U', 'V', 'D'):
                            continue
                        if kind == 'econv' and ty not in ('R', 'N', 'UV', 'V'):
                            continue
                        perms = [lv]
                        if kind in ('elem', 'econv', 'fslice'):
                            perms = list(itertools.permutations(lv))
                            if ty == 'V3':
                                perms = [(0, 1, 2), (2, 1, 0), (1, 2, 0)]
                        for pm in perms:
                            add('%s-%s-%d-%d-%s%s' % (ty, mode, inner, outer, kind, pm),
                                Node(ty, 3, [lv] * outer, [(Node(ty, 5, [lv] * inner, mode=mode), (kind, pm))]))
    # 3. leaves of an array connected to scalar ports or slices
    for mode in ('out', 'inout', 'buffer'):
        for ty in ('V', 'D', 'R', 'V3'):
            n = TY[ty][0]
            for l in range(n):
                for outer in ((), (0,), (1,), tuple(range(n))):
                    add('%s-scalar-port-%s-%d-%s' % (ty, mode, l, outer),
                        Node(ty, 3, [outer] if outer else [], [(Node('S', 5, [(0,)], mode=mode), ('one', (l,)))]))
            add('%s-scalar-ports-%s' % (ty, mode),
                Node(ty, 3, [], [(Node('S', 5, [(0,)], mode=mode), ('one', (l,))) for l in range(n)]))
        for lo in (0, 1):
            for outer in ((), (0,), (1,), (2,), (0, 1), (1, 2), (0, 1, 2)):
                for inner in ((0,), (1,), (0, 1)):
                    add('V3-slice-%s-%d-%s-%s' % (mode, lo, outer, inner),
                        Node('V3', 3, [outer] if outer else [], [(Node('V', 5, [inner], mode=mode), ('slice', (lo, lo + 1)))]))
        for a, b in ((0, 1), (1, 0)):
            add('V3-two-slices-%s-%d' % (mode, a),
                Node('V3', 3, [(1,)], [(Node('V', 5, [(0, 1)], mode=mode), ('slice', (a, a + 1))),
                                      (Node('V', 6, [(0, 1)], mode=mode), ('slice', (b, b + 1)))]))
    # 4. two levels and siblings
    modes = ('out', 'inout', 'buffer')
    for ty in ('S', 'V', 'R', 'W'):
        lv = tuple(range(TY[ty][0]))
        ks = ['whole'] + (['elem'] if ty in ('V', 'R') else []) + (['conv'] if ty in ('S', 'V') else [])
        for m1 in modes:
            for m2 in modes:
                for k1 in ks:
                    for k2 in ks:
                        if (m1, m2) not in (('out', 'out'), ('inout', 'inout'), ('inout', 'out'), ('buffer', 'buffer')):
                            continue        # rejected when the port map is analysed
                        p1 = lv[::-1] if k1 == 'elem' else lv
                        p2 = lv[::-1] if k2 == 'elem' else lv
                        for mid in (0, 1):
                            for top in (0, 1):
                                if ty != 'S' and mid != top and not thorough:
                                    continue
                                add('%s-nest-%s-%s-%s-%s-%d-%d' % (ty, m1, m2, k1, k2, mid, top),
                                    Node(ty, 2, [lv] * top, [(Node(ty, 4, [lv] * mid, [(Node(ty, 6, [lv], mode=m2), (k2, p2))], mode=m1), (k1, p1))]))
                # reader below a writer, siblings
                add('%s-sib-%s-%s' % (ty, m1, m2),
                    Node(ty, 2, [lv], [(Node(ty, 4, [lv], mode=m1), ('whole', lv)), (Node(ty, 6, [lv], mode=m2), ('whole', lv)),
                                       (Node(ty, 8, mode='in'), ('whole', lv))]))
                if ty in ('S', 'V'):
                    add('%s-sibc-%s-%s' % (ty, m1, m2),
                        Node(ty, 2, [lv], [(Node(ty, 4, [lv], mode=m1), ('conv', lv)), (Node(ty, 6, [lv], mode=m2), ('whole', lv)),
                                           (Node(ty, 8, [], [(Node(ty, 9, mode='in'), ('conv', lv))], mode='in'), ('conv', lv))]))
            add('%s-reader-%s' % (ty, m1),
                Node(ty, 2, [lv], [(Node(ty, 4, [lv], [(Node(ty, 8, [], [(Node(ty, 9, mode='in'), ('whole', lv))], mode='in'), ('whole', lv))], mode=m1), ('whole', lv))]))
    # 5. element readers of arrays and records
    for ty in ('V', 'D', 'R', 'V3', 'UV', 'N'):
        n = TY[ty][0]
        lv = tuple(range(n))
        for l in lv:
            sub = 'S' if TY[ty][3] else 'U'
            add('%s-elem-reader-%d' % (ty, l), Node(ty, 2, [lv], [(Node(sub, 8, mode='in'), ('one', (l,)))]))
            if TY[ty][3]:
                add('%s-elem-reader2-%d' % (ty, l), Node(ty, 2, [(l,), lv], [(Node(sub, 8, mode='in'), ('one', (l,))),
                                                                           (Node(ty, 7, [(n - 1 - l,)], mode='inout'), ('whole', lv))]))
    return T


# ---------------------------------------------------------------- std_logic
STD = 'UX01ZWLH-'
TAB = ['UUUUUUUUU', 'UXXXXXXXX', 'UX0X0000X', 'UXX11111X', 'UX01ZWLHX', 'UX01WWWWX', 'UX01LWLWX', 'UX01HWWHX', 'UXXXXXXXX']


def rstd(l):
    if len(l) == 1:
        return l[0]
    r = 4
    for x in l:
        r = STD.index(TAB[r][x])
    return r


STDSRC = '''library ieee; use ieee.std_logic_1164.all;
entity leaf is generic (W : natural); port (d : in std_logic_vector(W-1 downto 0); p : %(mode)s std_logic_vector(W-1 downto 0)); end entity;
architecture a of leaf is begin p <= d; end architecture;
library ieee; use ieee.std_logic_1164.all;
entity t is end entity;
architecture a of t is
  constant ND : natural := %(nd)d; constant W : natural := %(w)d;
  type cfile is file of std_logic;
  type ivec is array (natural range <>) of integer;
  constant WALK : ivec := (%(walk)s);
  file f : cfile open write_mode is "o.bin";
  type dv is array (0 to ND-1) of std_logic_vector(W-1 downto 0);
  signal d : dv;
  signal s : std_logic_vector(W-1 downto 0);
  signal b : std_logic;
begin
  g: for i in 0 to ND-1 generate
    p: if i < %(nports)d generate u: entity work.leaf generic map (W) port map (d(i), s); end generate;
    q: if i >= %(nports)d generate s <= d(i); end generate;
    b <= d(i)(0);
  end generate;
  process
    variable x : integer;
  begin
    for k in WALK'range loop
      x := WALK(k);
      for i in 0 to ND-1 loop
        for j in 0 to W-1 loop
          if x mod 9 + j < 9 then d(i)(j) <= std_logic'val(x mod 9 + j); else d(i)(j) <= std_logic'val(x mod 9 + j - 9); end if;
        end loop;
        x := x / 9;
      end loop;
      wait for 1 ns;
      for j in 0 to W-1 loop write(f, s(j)); end loop;
      write(f, b);
    end loop;
    wait;
  end process;
end architecture;
'''


# ------------------------------------------------- guarded signals (null)
NULLSRC = '''library ieee; use ieee.std_logic_1164.all;
package gp is
  type ivec is array (natural range <>) of integer;
  function resf(v : ivec) return integer;
  subtype rint is resf integer;
  type rvec is array (natural range <>) of rint;
end package;
package body gp is
  function resf(v : ivec) return integer is
    variable r : integer := 7 * v'length;
  begin
    for i in v'range loop r := r + v(i) * v(i) + 3 * v(i) + 1; end loop;
    return r mod 97;
  end function;
end package body;
library ieee; use ieee.std_logic_1164.all; use work.gp.all;
entity t is end entity;
architecture a of t is
  constant ND : natural := %(nd)d;
  type ifile is file of integer;
  constant WALK : ivec := (%(walk)s);
  file f : ifile open write_mode is "o.bin";
  signal step : integer := -1;
  signal s : %(ty)s %(kind)s := %(init)s;
begin
  g: for i in 0 to ND-1 generate
    process
      variable x, y : integer;
    begin
      if step >= 0 then
        x := WALK(step) / %(nv)d**i mod %(nv)d;
        %(assign)s
      end if;
      wait on step;
    end process;
  end generate;
  process
  begin
    for k in WALK'range loop
      step <= k;
      wait for 1 ns;
      %(sample)s
    end loop;
    wait;
  end process;
end architecture;
'''


def nulls(nd, ty, kind):
    """-> (source, expected values).  Driver state 0 is disconnected."""
    nv = {'std': 5, 'stdv': 4, 'int': 4, 'intv': 4}[ty]
    walk, full = walks(nd, nv, 7000 if nd < 4 else 0)
    vec = ty.endswith('v')
    std = ty.startswith('std')
    code = [None, 2, 3, 4, 6]
    decl = '    type ca is array (1 to 4) of std_logic; constant C : ca := ("01ZL");\n' if std else ''
    val = (lambda x: 'C(%s)' % x) if std else (lambda x: x)
    if not vec:
        assign = 'if x = 0 then s <= null; else s <= %s; end if;' % val('x')
        sample = 'write(f, std_logic\'pos(s));' if std else 'write(f, s);'
        w = 1
    else:
        # the second element is in the state after the next one
        assign = ('y := (x + i + 1) mod %d; if x = 0 then s(0) <= null; else s(0) <= %s; end if; '
                  'if y = 0 then s(1) <= null; else s(1) <= %s; end if;' % (nv, val('x'), val('y')))
        sample = "for j in 0 to 1 loop write(f, %s); end loop;" % ("std_logic'pos(s(j))" if std else 's(j)')
        w = 2
    t = {'std': 'std_logic', 'stdv': 'std_logic_vector(0 to 1)', 'int': 'rint', 'intv': '(resf) ivec(0 to 1)'}[ty]
    init = {'std': "'H'", 'stdv': '"HH"', 'int': '5', 'intv': '(5, 5)'}[ty]
    src = NULLSRC % {'nd': nd, 'walk': ', '.join(map(str, walk)), 'ty': t, 'kind': kind, 'init': init, 'nv': nv,
                     'assign': assign, 'sample': sample}
    src = src.replace('  signal step', decl + '  signal step')
    want = []
    iv = 7 if std else 5
    rs = (lambda l: rstd(l) if l else 4) if std else res
    cur = [rs([iv] * nd)] * w
    for x in walk:
        st = [x // nv ** i % nv for i in range(nd)]
        for j in range(w):
            v = [q if j == 0 else (q + i + 1) % nv for i, q in enumerate(st)]
            v = [code[q] if std else q for q in v if q]
            if v or kind == 'bus':
                cur[j] = rs(v)
        want += cur
    return src, want, walk, nv


def main():
    c = vf.Check('P02', 'model_checking')
    c.build()
    tops = topologies(c.thorough)
    full = 90000 if c.thorough else 7000
    tasks = []
    for ti, (name, top) in enumerate(tops):
        nn, nd = number(top)
        nv = 3 if nd <= 3 or c.thorough else 2
        if nd <= 1:
            nv = 4
        styles = [(0, 0), (1, 1)] if not c.thorough else [(0, 0), (0, 1), (1, 0), (1, 1), (2, 0), (2, 1)]
        if not c.thorough and nd < 2:
            styles = [(ti % 2, (ti // 2) % 2)]
        elif not c.thorough:
            styles = [styles[ti % 2]]
        for st in styles:
            tasks.append((name, top, nn, nd, nv, st))
    c.log('%d topologies, %d designs' % (len(tops), len(tasks)))

    def one(t):
        k, (name, top, nn, nd, nv, (stg, guard)) = t
        number(top)
        walk, full_ = walks(nd, nv, full)
        d = c.dir('t%d' % k)
        with open(d + '/t.vhd', 'w') as f:
            f.write(PKG % {'nv': nv, 'walk': ', '.join(map(str, walk)) if len(walk) > 1 else '0 => %d' % walk[0]})
            f.write(gen(top, stg, guard))
        opts = ['--no-collapse'] if (k // 2) % 3 == 2 else []
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save'] + opts + ['n0', '-r']
        r = c.nvc(args, d, timeout=120)
        if r.rc != 0:
            r = c.nvc(args, d, timeout=300)
        bad = None
        if r.rc != 0 or r.timed_out:
            bad = ('crash', 'rc=%s %s' % (r.rc, r.out[-1200:]))
        else:
            want = predict(top, walk, nv)
            for x in nodes(top):
                b = open(d + '/n%d.bin' % x.id, 'rb').read()
                got = list(struct.unpack('<%di' % (len(b) // 4), b))
                if got != want[x.id]:
                    n = TY[x.ty][0]
                    i = next((i for i, (a, b) in enumerate(zip(got, want[x.id])) if a != b), min(len(got), len(want[x.id])))
                    i = i // n * n
                    s = i // n - 1
                    bad = ('value', 'node %d (%s) at %s: expected %s, got %s' % (
                        x.id, x.mode or 'signal',
                        'initialisation' if s < 0 else 'step %d, drivers %s' % (s, [walk[s] // nv ** q % nv for q in range(nd)]),
                        want[x.id][i:i + n], got[i:i + n]))
                    break
        if bad is None:
            import shutil
            shutil.rmtree(d)
        return bad, len(walk), len(walk) * nn, nv ** nd, full_, d, args

    states = trans = checked = 0
    fulls = 0
    nbad = {}
    for (name, top, nn, nd, nv, st), (bad, nw, nc, ns, fl, d, args) in zip(tasks, c.pmap(one, list(enumerate(tasks)))):
        states += ns
        trans += nw
        checked += nc
        fulls += fl
        if bad:
            fam = '-'.join(name.split('-')[:2])
            nbad[fam] = nbad.get(fam, 0) + 1
            if os.environ.get('VERIF_ALL'):
                print(name, st, bad)
            if nbad[fam] <= 2:
                c.violation('%s:%s' % (bad[0], name), 'topology %s (%d drivers): %s' % (name, nd, bad[1]),
                            {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
    # the standard resolved type: all pairs of pairs, all triples
    sj = []
    for nd, w, npn, mode in ((1, 1, 0, 'out'), (1, 1, 1, 'out'), (2, 1, 0, 'out'), (2, 3, 1, 'out'), (2, 1, 2, 'inout'),
                             (3, 1, 0, 'out'), (3, 2, 1, 'inout'), (3, 1, 3, 'out')):
        sj.append((nd, w, npn, mode))

    def std(t):
        k, (nd, w, npn, mode) = t
        walk, _ = walks(nd, 9, 7000 if nd < 3 else 0)
        d = c.dir('s%d' % k)
        open(d + '/t.vhd', 'w').write(STDSRC % {'nd': nd, 'w': w, 'nports': npn, 'mode': mode, 'walk': ', '.join(map(str, walk))})
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r']
        r = c.nvc(args, d, timeout=240)
        if r.rc != 0 or r.timed_out:
            return ('crash', r.out[-1000:]), len(walk), d, args
        got = open(d + '/o.bin', 'rb').read()
        pos = 0
        for x in walk:
            dr = [x // 9 ** i % 9 for i in range(nd)]
            want = bytes([rstd([(v + j) % 9 for v in dr]) for j in range(w)] + [rstd(dr)])
            if got[pos:pos + w + 1] != want:
                return ('value', 'drivers %s: expected %s, got %s' % ([STD[v] for v in dr], [STD[v] for v in want],
                        [STD[v] for v in got[pos:pos + w + 1] if v < 9])), len(walk), d, args
            pos += w + 1
        return None, len(walk), d, args
    for j, (bad, n, d, args) in zip(sj, c.pmap(std, list(enumerate(sj)))):
        states += 9 ** j[0]
        trans += n
        checked += n
        if bad:
            c.violation('%s:std-%s' % (bad[0], '-'.join(map(str, j))), 'std_logic %s: %s' % (j, bad[1]),
                        {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
    # drivers that are switched off by null transactions
    nj = [(nd, ty, kind) for nd in (1, 2, 3, 4) for ty in ('std', 'stdv', 'int', 'intv') for kind in ('bus', 'register')]

    def null(t):
        k, j = t
        src, want, walk, nv = nulls(*j)
        d = c.dir('g%d' % k)
        open(d + '/t.vhd', 'w').write(src)
        args = ['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r']
        r = c.nvc(args, d, timeout=240)
        if r.rc != 0 or r.timed_out:
            return ('crash', r.out[-1000:]), len(walk), nv, d, args
        b = open(d + '/o.bin', 'rb').read()
        got = list(struct.unpack('<%di' % (len(b) // 4), b))
        w = len(want) // len(walk)
        for i, (g, e) in enumerate(zip(got, want)):
            if g != e:
                x = walk[i // w]
                return ('value', 'step %d element %d, driver states %s (0 is disconnected): expected %d, got %d' % (
                    i // w, i % w, [x // nv ** q % nv for q in range(j[0])], e, g)), len(walk), nv, d, args
        if len(got) != len(want):
            return ('value', '%d values instead of %d' % (len(got), len(want))), len(walk), nv, d, args
        return None, len(walk), nv, d, args
    for j, (bad, n, nv, d, args) in zip(nj, c.pmap(null, list(enumerate(nj)))):
        states += nv ** j[0]
        trans += n
        checked += n
        if bad:
            c.violation('%s:null-%s' % (bad[0], '-'.join(map(str, j))), 'disconnection %s: %s' % (j, bad[1]),
                        {'t.vhd': ('copy', d + '/t.vhd'), 'cmd.txt': 'nvc --std=2008 ' + ' '.join(args)})
    c.finish({'states': states, 'transitions': trans, 'traces_validated_against_impl': len(tasks) + len(sj) + len(nj),
              'values_compared': checked, 'topologies': len(tops), 'topologies_with_all_transitions': fulls, 'exhaustive': True,
              'samples': [n for n, _ in tops[::max(1, len(tops) // 8)]]},
             ['the resolution function used does not depend on the order of the sources'])


if __name__ == '__main__':
    vf.main(main)
