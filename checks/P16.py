"""P16: units that depend on changed units are never silently reused.

Model: seven design units (package, its body, entity, two architectures, top
level, configuration), each with a version and the time of its last analysis.
A unit is obsolete if a unit it depends on was analysed after it or is
obsolete.  An elaboration must either succeed and show the latest version of
every unit in every value it prints, or fail with a message that names a unit;
it may fail only if a unit of the design is obsolete.  The same holds for an
analysis.

Enumeration: every sequence of analyses (unit, version) up to the bound, from
a library in which every unit has its first version.  Each analysis is its own
run of nvc; after each prefix the top level and the configuration are
elaborated and run in a copy of the library.
"""
import os, re, sys, shutil, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

IMG = "integer'image(%s)"


def u_p(v):
    return """package p is
%s  constant c : integer := %d;
  constant d : integer;
  type en is (%sx, y);
  type r is record
%s    b : integer;
  end record;
  function f (a : integer := %d) return integer;
  component cq is
    generic (q : integer := %d);
    port (i : in integer);
  end component;
end package;
""" % ('  constant pad : string := "some more text";\n  signal pads : bit;\n' if v == 2 else '', v, 'z, ' if v == 2 else '', '    a : real;\n' if v == 2 else '', v * 3, v * 5)


def u_b(v):
    return """package body p is
%s  constant d : integer := %d;
  function f (a : integer := %%A) return integer is
  begin
    return %d + c * 10 + a;
  end function;
end package body;
""" % ('  constant padb : integer := 1;\n' if v == 2 else '', 7 * v, v * 100)


def u_e(v):
    return """use work.p.all;
entity e is
  generic (%sg : integer := c * 10 + %d);
  port (%sx : in bit_vector(1 to c); n : in en := %s);
  constant ec : integer := %d;
end entity;
""" % ('h : integer := 5; ' if v == 2 else '', v, 'o : in bit := \'1\'; ' if v == 2 else '', 'x', v * 6)


def u_a(v, name):
    return """architecture %s of e is
%s  signal k : integer := f + %d;
  signal rr : r := (b => ec, others => 0.0);
begin
  process is begin
    wait for 1 ns;
    report "@%s=%d g=" & integer'image(g) & " w=" & integer'image(x'length) & " k=" & integer'image(k) & " n=" & integer'image(en'pos(n)) & " d=" & integer'image(d) & " ec=" & integer'image(ec) & " b=" & integer'image(rr.b);
    wait;
  end process;
end architecture;
""".replace(", others => 0.0", "%s") % (name, '  signal pad : bit_vector(1 to 3);\n' if v == 2 else '', v, '', name, v)


def u_t(v):
    return """use work.p.all;
entity t is end entity;
architecture a of t is
%s  signal s : bit_vector(1 to c);
  component e is
    generic (g : integer := 900);
    port (x : in bit_vector);
  end component;
begin
  u1 : component e port map (x => s);
  u2 : entity work.e port map (x => s);
  process is
    variable rv : r;
  begin
    wait for 1 ns;
    rv.b := 3;
    report "@t=%d c=" & integer'image(c) & " f=" & integer'image(f) & " y=" & integer'image(en'pos(y)) & " d=" & integer'image(d) & " b=" & integer'image(rv.b);
    wait;
  end process;
end architecture;
""" % ('  signal pad : integer := 3;\n' if v == 2 else '', v)


def u_k(v):
    return """configuration k of t is
  for a
    for u1 : e use entity work.e(a) generic map (g => %d);
    end for;
  end for;
end configuration;
""" % (50 + v)


DEPS = {'p': '', 'b': 'p', 'e': 'p', 'a': 'ep', 'x': 'ep', 't': 'pe', 'k': 'tea'}
ORDER = 'pbextk'
NAMES = {'p': 'WORK.P', 'b': 'WORK.P-BODY', 'e': 'WORK.E', 'a': 'WORK.E-A', 'x': 'WORK.E-A2', 't': 'WORK.T', 'k': 'WORK.K'}


def text(u, v, pv):
    if u == 'p':
        return u_p(v)
    if u == 'b':
        # conforming default of the parameter: depends on the package's version
        return u_b(v).replace('%A', str(pv * 3))
    if u == 'e':
        return u_e(v)
    if u == 'a':
        return u_a(v, 'a')
    if u == 'x':
        return u_a(v, 'a2')
    if u == 't':
        return u_t(v)
    return u_k(v)


# r is (b) in version 1 and (a, b) in version 2 of the package
def fix(t, pv):
    if pv == 2:
        return t.replace('(b => ec)', '(b => ec, a => 0.0)')
    return t


class State:
    def __init__(self):
        self.ver, self.ts, self.n = {}, {}, 0
        self.pv = {}  # version of the package the source was written for

    def copy(self):
        s = State()
        s.ver, s.ts, s.n, s.pv = dict(self.ver), dict(self.ts), self.n, dict(self.pv)
        return s

    def obsolete(self, u, ts=None):
        ts = ts or self.ts
        return any(ts[d] > ts[u] or self.obsolete(d) for d in DEPS[u])

    def analyse(self, u, v):
        self.n += 1
        self.ver[u], self.ts[u] = v, self.n
        self.pv[u] = self.ver['p']

    def may_refuse(self, u):
        """analysis of u may be refused"""
        return any(self.obsolete(d) for d in DEPS[u])

    def expect(self, top):
        V = self.ver
        c = V['p']
        d = 7 * V['b']
        f = V['b'] * 100 + c * 10 + 3 * V['p']
        out = ['@t=%d c=%d f=%d y=%d d=%d b=3' % (V['t'], c, f, 2 if V['p'] == 2 else 1, d)]
        def arch(u, g):
            return '@%s=%d g=%d w=%d k=%d n=%d d=%d ec=%d b=%d' % ('a' if u == 'a' else 'a2', V[u], g, c, f + V[u], 1 if V['p'] == 2 else 0, d, V['e'] * 6, V['e'] * 6)
        last = 'a' if self.ts['a'] > self.ts['x'] else 'x'
        out.append(arch('a', 50 + V['k']) if top == 'k' else arch(last, 900))
        out.append(arch(last, c * 10 + V['e']))
        return sorted(out)

    def needs(self, top):
        s = set('pbetkax' if top == 'k' else 'pbetax')
        return s


def main():
    c = vf.Check('P16', 'model_checking')
    c.build()
    depth = 4 if c.thorough else 3
    units = 'pbeaxtk'
    stats = {'histories': 0, 'elaborations': 0, 'accepted': 0, 'refused': 0, 'refused analyses': 0}
    srcs = c.dir('src')
    for u in units:
        for v in (1, 2):
            for pv in (1, 2):
                with open('%s/%s%d%d.vhd' % (srcs, u, v, pv), 'w') as f:
                    f.write(fix(text(u, v, pv), pv))
    root = c.dir('root')
    st = State()
    for u in 'pbexatk':
        st.analyse(u, 1)
        r = c.nvc(['-a', '%s/%s11.vhd' % (srcs, u)], root)
        if r.rc != 0:
            c.die('cannot analyse %s: %s' % (u, r.out[-500:]))

    def names(msg):
        return re.search(r'\b(P|E|T|K|A|A2|WORK\.[\w-]+)\b', msg) is not None

    def elab(d, st, hist):
        for top in ('k', 't'):
            e = '%s.e%s' % (d, top)
            shutil.copytree(d, e)
            r = c.nvc(['-e', top, '-r', top], e)
            shutil.rmtree(e)
            stats['elaborations'] += 1
            got = sorted(re.findall(r'@.*', r.out))
            old = [NAMES[u] for u in st.needs(top) if st.obsolete(u)]
            what = 'after %s elaboration of %s' % (' '.join(hist) or 'the first analyses', top)
            files = {'history.txt': ' '.join(hist) + '\n', 'output.txt': r.out}
            if r.rc == 0:
                stats['accepted'] += 1
                if got != st.expect(top):
                    c.violation('stale:' + what, '%s used code of an older version: got %s, expected %s, out of date: %s' % (what, got, st.expect(top), old), files)
            else:
                stats['refused'] += 1
                if r.rc < 0 or r.rc > 128 or r.timed_out or re.search(r'\[0x[0-9a-f]{6}', r.out):
                    c.violation('crash:' + what, '%s crashed: %s' % (what, r.out[-500:]), files)
                elif not old:
                    c.violation('refused:' + what, '%s was refused although no unit is out of date: %s' % (what, r.out[-500:]), files)
                elif not re.search(r'(Error|Fatal):', r.out) or not names(r.out):
                    c.violation('message:' + what, '%s was refused without naming a unit: %s' % (what, r.out[-500:]), files)

    def step(item):
        d, st, hist, (u, v) = item
        name = 'h-' + '-'.join(hist + ['%s%d' % (u, v)])
        nd = os.path.join(c.work, name)
        shutil.copytree(d, nd)
        hist = hist + ['%s%d' % (u, v)]
        pv = v if u == 'p' else st.ver['p']
        r = c.nvc(['-a', '%s/%s%d%d.vhd' % (srcs, u, v, pv)], nd)
        stats['histories'] += 1
        ns = st.copy()
        files = {'history.txt': ' '.join(hist) + '\n', 'output.txt': r.out}
        what = 'analysis ' + ' '.join(hist)
        if r.rc == 0:
            ns.analyse(u, v)
        elif r.rc < 0 or r.rc > 128 or r.timed_out or re.search(r'\[0x[0-9a-f]{6}', r.out):
            c.violation('crash:' + what, '%s crashed: %s' % (what, r.out[-500:]), files)
        else:
            stats['refused analyses'] += 1
            if not st.may_refuse(u):
                c.violation('refused:' + what, '%s was refused although no unit it depends on is out of date: %s' % (what, r.out[-500:]), files)
            elif not names(r.out):
                c.violation('message:' + what, '%s was refused without naming a unit: %s' % (what, r.out[-500:]), files)
        elab(nd, ns, hist)
        return nd, ns, hist

    elab(root, st, [])
    level = [(root, st, [])]
    ops = [(u, v) for u in units for v in (1, 2)]
    for n in range(depth):
        items = []
        for d, s, h in level:
            for u, v in ops:
                if h and h[-1][0] == u:
                    continue  # two analyses of the same unit in a row: the later counts
                if n + 1 == depth and not c.thorough and v == s.ver[u] and u in 'tk':
                    continue
                items.append((d, s, h, (u, v)))
        nxt = c.pmap(step, items)
        for d, s, h in level:
            shutil.rmtree(d)
        level = nxt
        c.log('depth %d: %s' % (n + 1, stats))
    stats['depth'] = depth
    c.finish(stats, ['each analysis is a separate run of nvc; versions differ in constants, default values, type layouts, extra declarations and ports'])


vf.main(main)
