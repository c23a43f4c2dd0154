#!/usr/bin/env python3
# P27: elaboration builds exactly the described hierarchy.
#
# Part 1 enumerates every nesting of the concurrent constructs that create a
# declarative region (blocks with and without generics, for-generate in three
# forms, if- and case-generate alternatives, entity, component and
# configuration instances) to a depth, with each kind of local declaration in
# every region.  Every region computes values from its own declarations only
# and reports them with its path and instance name; an independent walk over
# the abstract tree gives the exact multiset of lines that has to appear.
# Part 2 enumerates component bindings: default binding rules, configuration
# specifications, configuration declarations with nested block configurations,
# and part 3 command line overrides of generics.
import os, sys, itertools, re
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

# ---------------------------------------------------------------- part 1

CONS = ['blk', 'blkg', 'forup', 'fordn', 'forb', 'ifg', 'elsg', 'casg', 'ent', 'comp', 'cfg']

# kind: (declarations, statements of the reporting process, expression of the
# reported string, python function k -> string).  @ is the constant of the
# region, every kind uses only names of its own region.
I = lambda x: "integer'image(%s)" % x
KINDS = {
    'const': ('', '', I('@'), lambda k: str(k)),
    'type': ("  type e is (x0, x1, x2);\n  constant v : e := e'val(@ mod 3);\n  signal se : e := e'val((@ + 1) mod 3);\n",
             '', "e'image(v) & e'image(se)", lambda k: 'x%dx%d' % (k % 3, (k + 1) % 3)),
    'subt': ("  subtype r is integer range 0 to @;\n  signal b : bit_vector(@ downto 1);\n  type a is array (r) of boolean;\n",
             '', I("r'high") + ' & "," & ' + I("b'length") + ' & "," & ' + I("a'length"), lambda k: '%d,%d,%d' % (k, k, k + 1)),
    'sig': ("  signal s : integer := @;\n", "    s <= s + 1 after 1 ns;\n    wait for 2 ns;\n", I('s'), lambda k: str(k + 1)),
    'conc': ("  signal s, s2 : integer := @;\n", "    s <= s + 1;\n    wait for 2 ns;\n", I('s2'), lambda k: str(2 * k + 2)),
    'fun': ("  function f (x : integer) return integer is\n  begin\n    return x * 100 + @;\n  end function;\n", '', I('f(2)'), lambda k: str(200 + k)),
    'fcst': ("  function f (x : integer) return integer is\n  begin\n    return x * 100 + @;\n  end function;\n  constant q : integer := f(1);\n  signal s : integer := f(3);\n", '',
             I('q') + ' & "," & ' + I('s'), lambda k: '%d,%d' % (100 + k, 300 + k)),
    'impf': ("  signal s : integer := @;\n  impure function f return integer is\n  begin\n    return s * 2;\n  end function;\n", "    s <= s + 5;\n    wait for 1 ns;\n", I('f'), lambda k: str(2 * k + 10)),
    'proc': ("  signal s : integer := @;\n  procedure p (x : inout integer; signal y : out integer) is\n  begin\n    x := x + @;\n    y <= x;\n  end procedure;\n",
             "    n := 7;\n    p(n, s);\n    wait for 1 ns;\n", I('s') + ' & "," & ' + I('n'), lambda k: '%d,%d' % (k + 7, k + 7)),
    'nestf': ("  function f (x : integer) return integer is\n    constant z : integer := x + @;\n    function g (y : integer) return integer is\n      variable w : integer := z;\n"
              "    begin\n      if y > 0 then\n        return g(y - 1) + z;\n      end if;\n      return w * @;\n    end function;\n  begin\n    return g(2);\n  end function;\n",
              '', I('f(1)'), lambda k: str((1 + k) * k + 2 * (1 + k))),
    'ovl': ("  type e is (x0, x1);\n  type e2 is (x0, x1, x2);\n  function f (x : e) return integer is\n  begin\n    return @;\n  end function;\n  function f (x : e2) return integer is\n  begin\n    return 1000 + @;\n  end function;\n",
            '', I("f(e'(x0))") + ' & "," & ' + I("f(e2'(x2))"), lambda k: '%d,%d' % (k, 1000 + k)),
    'pkg': ("  package pk is\n    constant c : integer := @ + 1;\n    function g return integer;\n  end package;\n  package body pk is\n    constant d : integer := c * 2;\n"
            "    function g return integer is\n    begin\n      return d + c;\n    end function;\n  end package body;\n", '', I('pk.c') + ' & "," & ' + I('pk.g'), lambda k: '%d,%d' % (k + 1, 3 * (k + 1))),
    'pkgs': ("  package pk is\n    signal s : integer := @;\n    type e is (x0, x1, x2);\n  end package;\n  constant v : pk.e := pk.e'val(@ mod 3);\n",
             "    pk.s <= pk.s + 3;\n    wait for 1 ns;\n", I('pk.s') + " & pk.e'image(v)", lambda k: '%dx%d' % (k + 3, k % 3)),
    'pkgv': ("  package pk is\n    type pt is protected\n      procedure inc (x : integer);\n      impure function get return integer;\n    end protected;\n  end package;\n"
             "  package body pk is\n    type pt is protected body\n      variable v : integer := @;\n      procedure inc (x : integer) is\n      begin\n        v := v + x;\n      end procedure;\n"
             "      impure function get return integer is\n      begin\n        return v;\n      end function;\n    end protected body;\n  end package body;\n  shared variable sv : pk.pt;\n",
             "    sv.inc(2);\n    wait for 1 ns;\n    sv.inc(1);\n    wait for 1 ns;\n", I('sv.get'), lambda k: str(k + 3)),
    'prot': ("  type pt is protected\n    procedure inc (x : integer);\n    impure function get return integer;\n  end protected;\n  type pt is protected body\n    variable v : integer := @;\n"
             "    procedure inc (x : integer) is\n    begin\n      v := v + x;\n    end procedure;\n    impure function get return integer is\n    begin\n      return v;\n    end function;\n  end protected body;\n"
             "  shared variable sv : pt;\n", "    sv.inc(2);\n    wait for 1 ns;\n    sv.inc(1);\n    wait for 1 ns;\n", I('sv.get'), lambda k: str(k + 3)),
    'rec': ("  type r is record\n    a : bit_vector(@ downto 1);\n    b : integer;\n  end record;\n  function mk (x : integer) return r is\n    variable v : r;\n  begin\n    v.b := x + @;\n    v.a(1) := '1';\n    return v;\n  end function;\n"
            "  signal s : r := mk(2);\n", '', I('s.b') + ' & "," & ' + I("s.a'length") + " & bit'image(s.a(1))", lambda k: "%d,%d'1'" % (k + 2, k)),
    'reso': ("  function res (x : work.gt.ia) return integer is\n    variable v : integer := @;\n  begin\n    for i in x'range loop\n      v := v + x(i);\n    end loop;\n    return v;\n  end function;\n"
             "  subtype ri is res integer;\n  signal s : ri := 0;\n", "    s <= 5;\n    wait for 1 ns;\n", I('s'), lambda k: str(k + 5 + 7)),
    'attr': ("  signal s : bit;\n  attribute at : integer;\n  attribute at of s : signal is @ + 4;\n", '', I("s'at"), lambda k: str(k + 4)),
    'alias': ("  signal s : bit_vector(@ + 3 downto @);\n  alias al : bit_vector(0 to 3) is s;\n  alias nl : bit is s(@ + 1);\n", "    al(1) <= '1';\n    nl <= '1';\n    wait for 1 ns;\n",
              "to_string(s)", lambda k: '0110'),
    'acc': ("  type rec;\n  type ptr is access rec;\n  type rec is record\n    v : integer;\n    n : ptr;\n  end record;\n  function mk (x : integer) return integer is\n    variable p : ptr := new rec'(@, null);\n  begin\n"
            "    p := new rec'(x, p);\n    return p.v + p.n.v;\n  end function;\n", '', I('mk(9)'), lambda k: str(k + 9)),
    'gpkg': ("  package ip is new work.gp generic map (n => @);\n", '', I('ip.c') + ' & "," & ' + I('ip.f(3)'), lambda k: '%d,%d' % (k + 1, k * 3 + k + 1)),
    'lgpkg': ("  package lp is\n    generic (n : integer);\n    constant c : integer := n * 2 + @;\n    function f return integer;\n  end package;\n  package body lp is\n    function f return integer is\n    begin\n      return c + n;\n    end function;\n  end package body;\n"
              "  package i1 is new lp generic map (n => 1);\n  package i2 is new lp generic map (n => @);\n", '', I('i1.f') + ' & "," & ' + I('i2.f'), lambda k: '%d,%d' % (3 + k, 4 * k)),
    'gfun': ("  function gf generic (m : integer) (x : integer) return integer is\n  begin\n    return x * m + @;\n  end function;\n  function f1 is new gf generic map (3);\n  function f2 is new gf generic map (@);\n", '',
             I('f1(2)') + ' & "," & ' + I('f2(2)'), lambda k: '%d,%d' % (6 + k, 3 * k)),
    'phys': ("  type ph is range 0 to 1000000 units\n    pu;\n    qu = 10 pu;\n  end units;\n  constant v : ph := @ * qu;\n", '', "ph'image(v)", lambda k: '%d pu' % (10 * k)),
    'usec': ("  constant c : integer := @;\n  package p1 is\n    constant d : integer := c + 1;\n  end package;\n  package p2 is\n    constant d : integer := p1.d + c;\n  end package;\n  signal s : integer := p2.d;\n", '', I('s'), lambda k: str(2 * k + 1)),
}
# concurrent statements of a kind
EXTRA = {'conc': "  s2 <= s * 2;\n", 'reso': "  s <= 7;\n"}


UNSUP = ('pkg', 'pkgs', 'pkgv', 'usec', 'lgpkg')


class Gen:
    """text of one program and the lines that it has to report"""
    def __init__(self, tag, kinds):
        self.tag, self.kinds = tag, kinds
        self.units = []
        self.nunit = 0
        self.exp = []

    def decls(self, L, ex):
        t = '  constant k%d : integer := %s;\n' % (L, ex)
        for kd in self.kinds:
            t += KINDS[kd][0].replace('@', 'k%d' % L)
        return t

    def stmts(self, L):
        t = ''
        for kd in self.kinds:
            t += EXTRA.get(kd, '').replace('@', 'k%d' % L)
        body = ''.join(KINDS[kd][1].replace('@', 'k%d' % L) for kd in self.kinds)
        val = ' & ";" & '.join(KINDS[kd][2].replace('@', 'k%d' % L) for kd in self.kinds)
        t += '  pr : process is\n    variable n : integer := 0;\n  begin\n    wait for 1 ns;\n%s    report "@%s|" & n\'path_name & "|" & n\'instance_name & "|" & %s;\n    wait;\n  end process;\n' % (body, self.tag, val)
        return t

    def region(self, L, cons):
        """concurrent statements inside of a region of level L whose constant is kL"""
        return self.stmts(L) + (self.construct(L, cons[0], cons[1:]) if cons else '')

    def expect(self, k, path, inst, cons):
        val = ';'.join(KINDS[kd][3](k) for kd in self.kinds)
        self.exp.append('@%s|%s:pr:n|%s:pr:n|%s' % (self.tag, path, inst, val))
        if not cons:
            return
        c, rest = cons[0], cons[1:]
        for lab, ilab, kk in self.children(c, k):
            self.expect(kk, path + ':' + lab, inst + ':' + ilab, rest)

    def unitname(self, c, rest):
        """the entity that the instances of construct c have below them"""
        return 'e_%s_%s_%s' % (self.tag, c, '_'.join(rest)) if rest else 'e_%s_%s' % (self.tag, c)

    def children(self, c, k):
        f = lambda i: k % 11 * 2 + i
        if c == 'blk':
            return [('b0', 'b0', f(1)), ('b1', 'b1', f(2))]
        if c == 'blkg':
            return [('b0', 'b0', f(1)), ('b1', 'b1', f(2))]
        if c == 'forup':
            return [('g(%d)' % i, 'g(%d)' % i, f(i)) for i in (1, 2, 3)]
        if c == 'fordn':
            return [('g(%d)' % i, 'g(%d)' % i, f(i)) for i in (4, 3)]
        if c == 'forb':
            return [('g(%d)' % i, 'g(%d)' % i, f(i + 1)) for i in (0, 1)]
        if c == 'ifg':
            return [('g', 'g', f(1)), ('h', 'h', f(4) if k % 2 else f(5))]
        if c == 'elsg':
            return [('g', 'g', f(1) if k % 3 == 0 else f(2) if k % 3 == 1 else f(3))]
        if c == 'casg':
            return [('g', 'g', f(1) if k % 4 in (0, 3) else f(2) if k % 4 == 1 else f(3))]
        e = self.cur
        return [('u0', 'u0@%s(a)' % e, f(1)), ('u1', 'u1@%s(a)' % e, f(2))]

    def construct(self, L, c, rest):
        K = 'k%d' % L
        f = lambda i: '%s mod 11 * 2 + %s' % (K, i)
        inner = lambda i: self.decls(L + 1, f(i)) + 'begin\n' + self.region(L + 1, rest)
        if c == 'blk':
            return ''.join('  b%d : block is\n%s  end block;\n' % (i, inner(i + 1)) for i in (0, 1))
        if c == 'blkg':
            return ''.join('  b%d : block is\n    generic (gg : integer := 99);\n    generic map (gg => %s);\n%sbegin\n%s  end block;\n' % (
                i, f(i + 1), self.decls(L + 1, 'gg'), self.region(L + 1, rest)) for i in (0, 1))
        if c == 'forup':
            return '  g : for i in 1 to 3 generate\n%s  end generate;\n' % inner('i')
        if c == 'fordn':
            return '  g : for i in 4 downto 3 generate\n%s  end generate;\n' % inner('i')
        if c == 'forb':
            return '  g : for lv in boolean generate\n%s  end generate;\n' % inner("boolean'pos(lv) + 1")
        if c == 'ifg':
            return '  g : if %s >= 0 generate\n%s  end generate;\n  h : if %s mod 2 = 1 generate\n%s  else generate\n%s  end generate;\n' % (K, inner(1), K, inner(4), inner(5)) \
                + '  n : if %s < 0 generate\n%s  end generate;\n' % (K, inner(9))
        if c == 'elsg':
            return '  g : if %s mod 3 = 0 generate\n%s  elsif %s mod 3 = 1 generate\n%s  else generate\n%s  end generate;\n' % (K, inner(1), K, inner(2), inner(3))
        if c == 'casg':
            return '  g : case %s mod 4 generate\n  when 0 | 3 =>\n%s  when 1 =>\n%s  when others =>\n%s  end generate;\n' % (K, inner(1), inner(2), inner(3))
        e = self.unit(c, rest)
        if c == 'ent':
            return ''.join('  u%d : entity work.%s generic map (%s);\n' % (i, e, f(i + 1)) for i in (0, 1))
        if c == 'cfg':
            return ''.join('  u%d : configuration work.c_%s generic map (%s);\n' % (i, e, f(i + 1)) for i in (0, 1))
        return ''.join('  u%d : component %s generic map (gg => %s);\n' % (i, e, f(i + 1)) for i in (0, 1))

    def unit(self, c, rest):
        e = 'e_%s_%s' % (self.tag, c + ''.join('_' + x for x in rest))
        if e not in self.done:
            self.done.add(e)
            t = 'entity %s is\n  generic (gg : integer := 98);\nend entity;\narchitecture a of %s is\n%s%sbegin\n%send architecture;\n' % (
                e, e, self.comps(rest), self.decls(1, 'gg'), self.region(1, rest))
            if c == 'cfg':
                t += 'configuration c_%s of %s is\n  for a\n  end for;\nend configuration;\n' % (e, e)
            self.units.append(t)
        return e

    def comps(self, rest):
        """component declarations that a region of an entity needs"""
        out = ''
        for i, c in enumerate(rest):
            if c == 'comp':
                out += '  component e_%s_%s is\n    generic (gg : integer := 97);\n  end component;\n' % (self.tag, '_'.join(rest[i:]))
            if c in ('ent', 'comp', 'cfg'):
                break
        return out

    def build(self, cons):
        self.done = set()
        top = 'top_' + self.tag
        body = self.region(0, cons)
        txt = 'entity %s is\nend entity;\narchitecture a of %s is\n%s%sbegin\n%send architecture;\n' % (
            top, top, self.comps(cons), self.decls(0, '5'), body)
        # expected lines
        def ex(k, path, inst, cs):
            val = ';'.join(KINDS[kd][3](k) for kd in self.kinds)
            self.exp.append('@%s|%s:pr:n|%s:pr:n|%s' % (self.tag, path, inst, val))
            if cs:
                if cs[0] in ('ent', 'comp', 'cfg'):
                    self.cur = 'e_%s_%s' % (self.tag, '_'.join(cs))
                for lab, il, kk in self.children(cs[0], k):
                    ex(kk, path + ':' + lab, inst + ':' + il, cs[1:])
        ex(5, ':t:p_' + self.tag, ':t(a):p_%s@%s(a)' % (self.tag, top), cons)
        return ''.join(self.units) + txt


GP = '''package gt is
  type ia is array (natural range <>) of integer;
end package;
package gp is
  generic (n : integer);
  constant c : integer := n + 1;
  function f (x : integer) return integer;
end package;
package body gp is
  function f (x : integer) return integer is
  begin
    return n * x + c;
  end function;
end package body;
'''


def run_lines(c, d, text, top, args=(), rargs=(), std='2008', pre=()):
    with open(os.path.join(d, 'd.vhd'), 'w') as f:
        f.write(text)
    r = c.nvc(['-a', 'd.vhd', '-e', *args, '--jit', '--no-save', top, '-r', *rargs], d, std=std, timeout=300)
    got = sorted(m.group(1) for m in re.finditer(r'Note: [^@\n]*(@[^\n]*)', r.out))
    return r, got


def chunks(l, n):
    return [l[i::n] for i in range(n) if l[i::n]]


def part_nest(c, part=1):
    progs = []
    for kd in KINDS:
        if kd in UNSUP:
            continue
        for n in (1, 2):
            for cs in itertools.product(CONS, repeat=n):
                progs.append(([kd], cs))
    sep = [k for k in ('type', 'sig', 'fun', 'prot', 'pkg', 'rec', 'gpkg')]
    clash = {}
    for cs in itertools.product(CONS, repeat=3):
        if not c.thorough and (CONS.index(cs[0]) + CONS.index(cs[1]) + CONS.index(cs[2])) % 3:
            continue
        i = sum(CONS.index(x) * 11 ** j for j, x in enumerate(cs))
        ks = [k for k in KINDS if k not in UNSUP]
        for kd in (ks if c.thorough else [ks[i % len(ks)], ks[(i * 7 + 3) % len(ks)]]):
            progs.append(([kd], cs))
    progs = progs[::part]  # P06 uses a part
    def batch(b):
        bi, ps = b
        d = c.dir('n%d' % bi)
        units, exp, insts = '', [], ''
        for i, (kds, cs) in enumerate(ps):
            tag = 'x%d_%d' % (bi, i)
            g = Gen(tag, kds)
            units += g.build(list(cs))
            exp += g.exp
            insts += '  p_%s : entity work.top_%s;\n' % (tag, tag)
        text = GP + units + 'entity t is end entity;\narchitecture a of t is\nbegin\n' + insts + 'end architecture;\n'
        r, got = run_lines(c, d, text, 't')
        exp.sort()
        if r.rc == 0 and got == exp:
            return len(ps), len(exp)
        if len(ps) > 1:
            res = [batch((bi * 4 + j + 100000, x)) for j, x in enumerate(chunks(ps, 4))]
            return sum(x[0] for x in res), sum(x[1] for x in res)
        kds, cs = ps[0]
        key = 'nest:%s:%s' % (kds[0], '-'.join(cs))
        if r.rc != 0 and not got:
            txt = 'design with %s in %s is not accepted: %s' % (kds[0], '/'.join(cs), r.out[-400:])
        else:
            miss = [x for x in exp if x not in got]
            extra = [x for x in got if x not in exp]
            txt = 'instances of %s with local %s: missing %s, extra %s, status %d' % ('/'.join(cs), kds[0], miss[:3], extra[:3], r.rc)
        c.violation(key, txt, {'d.vhd': text})
        return 1, len(exp)
    bs = list(enumerate(chunks(progs, max(8, len(progs) // 40))))
    res = c.pmap(batch, bs)
    return sum(x[0] for x in res), sum(x[1] for x in res)


# ---------------------------------------------------------------- part 2

# binding indication, (entity, arch), generic, port: value functions of the
# component's generic and port, None: the default of the entity
BINDS = [
    ('use entity work.e1(a1)', ('e1', 'a1'), lambda g: g, lambda p: p),
    ('use entity work.e1(a2)', ('e1', 'a2'), lambda g: g, lambda p: p),
    ('use entity work.e1', ('e1', 'a3'), lambda g: g, lambda p: p),
    ('use entity work.e2', ('e2', 'b1'), lambda g: g, lambda p: p),
    ('use configuration work.k1', ('e1', 'a1'), lambda g: g, lambda p: p),
    ('use configuration work.k2', ('e1', 'a2'), lambda g: g, lambda p: p),
    ('use entity work.e1(a1) generic map (g => g + 5)', ('e1', 'a1'), lambda g: g + 5, lambda p: p),
    ('use entity work.e1(a3) generic map (g => 77) port map (p => p)', ('e1', 'a3'), lambda g: 77, lambda p: p),
    ('use entity work.e2(b1) port map (p => open)', ('e2', 'b1'), lambda g: g, lambda p: 9),
    ('use entity work.e2(b1) generic map (g => open)', ('e2', 'b1'), lambda g: 30, lambda p: p),
    ('use open', None, None, None),
]
DEFAULT = ('', ('c1', 'a2'), lambda g: g, lambda p: p)

COMP = """  component c1 is
    generic (g : integer := 40);
    port (p : in integer := 8);
  end component;
"""


def bind_line(tag, b, g, p):
    if b[1] is None:
        return []
    return ['@%s %s(%s) %d %d' % (tag, b[1][0], b[1][1], b[2](g), b[3](p))]


def part_bind(c):
    """all bindings of component instances in every kind of region"""
    # where the instances are: label path of block configurations, region text
    # (% = instances), instances' generics
    def inst(labs, k):
        return ''.join('    %s : component c1 generic map (g => %s) port map (p => s);\n' % (l, '%s + %d' % (k, i)) for i, l in enumerate(labs))
    regions = {
        'arch': (None, '%s', ['100']),
        'block': ('bl', '  bl : block is\n  begin\n%s  end block;\n', ['100']),
        'if': ('gi', '  gi : if s0 = 1 generate\n  begin\n%s  end generate;\n', ['100']),
        'else': ('gi(al)', '  gi : if no : s0 = 2 generate\n  else al : generate\n  begin\n%s  end al;\n  end generate;\n', ['100']),
        'case': ('gc(al)', '  gc : case s0 generate\n  when al : 1 =>\n  begin\n%s  end al;\n  when others =>\n  end generate;\n', ['100']),
        'for': ('gf', '  gf : for i in 1 to 2 generate\n  begin\n%s  end generate;\n', ['i * 100']),
    }
    # specification in the declarative part (of an architecture or a block)
    # None, single instances, all, others
    specs = [None] + [(k, b) for k in ('u0', 'u1', 'u0,u1', 'all', 'others', 'u0+others') for b in range(len(BINDS))]
    if not c.thorough:
        specs = [None] + [(k, b) for i, k in enumerate(('u0', 'u1', 'u0,u1', 'all', 'others', 'u0+others')) for b in range(len(BINDS)) if b == i or i in (0, 3) or (b + i) % 3 == 0]
    n = 0
    texts, exp = [], []
    def add(rname, how, k, b, viacfg, second=None):
        nonlocal n
        path, txt, gens = regions[rname]
        n += 1
        tag = 'y%d' % n
        labs = ['u0', 'u1']
        B = {'u0': DEFAULT, 'u1': DEFAULT}
        lines = []
        if k is not None:
            bi = BINDS[b]
            if k == 'u0+others':
                other = BINDS[(b + 3) % len(BINDS)]
                lines = [('u0', bi), ('others', other)]
                B = {'u0': bi, 'u1': other}
            else:
                lines = [(k, bi)]
                for l in labs if k in ('all', 'others') else k.split(','):
                    B[l] = bi
        body = inst(labs, gens[0])
        spec = ''.join('    for %s : c1 %s;\n' % (l, x[0]) for l, x in lines) if not viacfg else ''
        if viacfg or path is None or how == 'outer':
            region = txt % body if rname != 'arch' else body
        else:
            region = (txt % ('\0' + body)).replace('begin\n\0', spec + '  begin\n').replace('\0', '')
        aspec = spec if path is None else ''
        t = 'entity z%d is end entity;\narchitecture a of z%d is\n  constant s0 : integer := 1;\n  signal s : integer := 3;\n%s%sbegin\n%send architecture;\n' % (n, n, COMP, aspec, region)
        top = 'entity work.z%d(a)' % n
        if viacfg:
            cl = ''.join('      for %s : c1 %s;\n      end for;\n' % (l, x[0]) for l, x in lines)
            inner = cl if path is None else '    for %s\n%s    end for;\n' % (path, cl)
            t += 'configuration q%d of z%d is\n  for a\n%s  end for;\nend configuration;\n' % (n, n, inner)
            top = 'configuration work.q%d' % n
        vals = [100, 200] if rname == 'for' else [100]
        e = []
        for base in vals:
            for i, l in enumerate(labs):
                e += bind_line(tag, B[l], base + i, 3)
        texts.append((tag, n, t, top, e, 'component instances in %s bound by %s "%s"' % (rname, 'a configuration' if viacfg else 'a specification', [(l, x[0]) for l, x in lines])))
    for rname in regions:
        for sp in specs:
            for viacfg in (False, True):
                if sp is None and viacfg or viacfg and rname == 'case':
                    continue  # block configuration of case generate: probe
                if sp is None:
                    add(rname, None, None, None, False)
                else:
                    add(rname, None, sp[0], sp[1], viacfg)
    def job(b):
        i, ts = b
        d = c.dir('b%d' % i)
        body = ''.join(x[2] for x in ts)
        insts = ''.join('  i_%s : %s;\n' % (x[0], x[3]) for x in ts)
        text = ENT2 + body + 'entity t is end entity;\narchitecture a of t is\nbegin\n' + insts + 'end architecture;\n'
        r, got = run_lines(c, d, text, 't')
        got = sorted(re.sub(r'^@:t:i_(y\d+)[^|]*\|', r'@\1 ', x) for x in got)
        e = sorted(sum((x[4] for x in ts), []))
        if r.rc == 0 and got == e:
            return len(ts)
        if len(ts) > 1:
            return sum(job((i * 4 + j + 100000, x)) for j, x in enumerate(chunks(ts, 4)))
        x = ts[0]
        if r.rc != 0 and not got:
            c.violation('bind:' + x[5], x[5] + ' is not accepted: ' + r.out[-400:], {'d.vhd': text})
        else:
            c.violation('bind:' + x[5], '%s: got %s, expected %s' % (x[5], got, e), {'d.vhd': text})
        return 1
    return sum(c.pmap(job, list(enumerate(chunks(texts, max(8, len(texts) // 30))))))


ENT2 = ''.join("""entity %s is
  generic (g : integer := %d);
  port (p : in integer := 9);
end entity;
""" % (e, n) + ''.join("""architecture %s of %s is
begin
  process is variable v : bit; begin wait for 1 ns; report "@" & v'path_name & "|%s(%s) " & integer'image(g) & " " & integer'image(p); wait; end process;
end architecture;
""" % (a, e, e, a) for a in archs) for e, n, archs in (('c1', 10, ('a1', 'a2')), ('e1', 20, ('a1', 'a2', 'a3')), ('e2', 30, ('b1',)))) + """configuration k1 of e1 is
  for a1
  end for;
end configuration;
configuration k2 of e1 is
  for a2
  end for;
end configuration;
"""


PROBES = {
    # key: (what, text, expected report lines)
    'case-config': ('block configuration of a case generate alternative', """entity t is end entity;
architecture a of t is
  constant s0 : integer := 1;
  signal s : integer := 3;
  component c1 is
    generic (g : integer := 40);
    port (p : in integer := 8);
  end component;
begin
  gc : case s0 generate
  when al : 1 =>
  begin
    u0 : component c1 port map (p => s);
  end al;
  when others =>
  end generate;
end architecture;
configuration q of t is
  for a
    for gc(al)
      for u0 : c1 use entity work.e1(a1);
      end for;
    end for;
  end for;
end configuration;
""", 'q', ['e1(a1) 40 3']),
    'for-index-config': ('block configuration of one iteration of a for generate', """entity t is end entity;
architecture a of t is
  signal s : integer := 3;
  component c1 is
    generic (g : integer := 40);
    port (p : in integer := 8);
  end component;
begin
  gf : for i in 1 to 2 generate
  begin
    u0 : component c1 generic map (g => i) port map (p => s);
  end generate;
end architecture;
configuration q of t is
  for a
    for gf(1)
      for u0 : c1 use entity work.e1(a1);
      end for;
    end for;
    for gf(2)
      for u0 : c1 use entity work.e1(a2);
      end for;
    end for;
  end for;
end configuration;
""", 'q', ['e1(a1) 1 3', 'e1(a2) 2 3']),
    'local-package': ('package declared in an architecture', """entity t is end entity;
architecture a of t is
  package p is
    function f(x : integer) return integer;
  end package;
  package body p is
    function f(x : integer) return integer is
    begin
      return x + 1;
    end function;
  end package body;
begin
  process is begin
    report "@x|v " & integer'image(p.f(4));
    wait;
  end process;
end architecture;
""", 't', ['v 5']),
    'local-generic-package': ('uninstantiated package with a body declared in an architecture', """entity t is end entity;
architecture a of t is
  package p is
    generic (n : integer);
    function f(x : integer) return integer;
  end package;
  package body p is
    function f(x : integer) return integer is
    begin
      return x + n;
    end function;
  end package body;
  package i is new work.t.p generic map (5);
begin
  process is begin
    report "@x|v " & integer'image(i.f(4));
    wait;
  end process;
end architecture;
""".replace('work.t.p', 'p'), 't', ['v 9']),
}


def part_probes(c):
    def job(kv):
        key, (what, text, top, e) = kv
        r, got = run_lines(c, c.dir('pr-' + key), ENT2 + text, top)
        got = [x.split('|')[-1].rstrip() for x in got]
        if sorted(got) != sorted(e):
            c.violation(key, '%s: got %s, expected %s: %s' % (what, got, e, r.out[-300:].replace('\n', ' ')), {'d.vhd': ENT2 + text})
    c.pmap(job, list(PROBES.items()))


def main():
    c = vf.Check('P27', 'model_checking')
    c.build()
    p, n = part_nest(c)
    c.log('nesting programs: %d, instances %d' % (p, n))
    b = part_bind(c)
    c.log('bindings: %d' % b)
    part_probes(c)
    c.finish({'probes': len(PROBES), 'programs': p, 'instances': n, 'bindings': b}, [])


if __name__ == "__main__":
    vf.main(main)
