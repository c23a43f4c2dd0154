"""P13: separately compiled libraries behave like one compilation.

Part 1: a project of seven units (package, body, entity, two architectures,
top level, configuration).  Every legal order of analysis, each with all units
in one run of nvc, with one run for each, and with every single split point;
for one order every partition of the sequence of commands (analyses,
elaboration, run) into runs; every partition of the units into libraries.
Part 2: a table of declarations of every kind of object a library stores
(constants and aggregates of every class of type, types, subprograms,
overloading, protected types, generic packages and subprograms, attributes,
aliases, components, signals, contexts and so on), declared in one package,
used by a second package and by a design; every legal order of its files and
every partition of the commands into runs, with the elaborated design stored
as packed or native code.  The text each entry must print is part of the
table, so that no configuration of the tool is the reference.
"""
import os, re, sys, shutil, itertools
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, '..', 'lib'))
import vf

I = lambda x: "integer'image(%s)" % x
# package, body, second package (or None), declarations and statements of the
# user process, string expression, expected text.  $ is a unique prefix.
T = [
    ('constant $c : integer := 2147483647; constant $d : integer := -2147483647 - 1;', '', 'constant $e : integer := $c - 5;', '', '', I('$c') + ' & ' + I('$d') + ' & ' + I('$e'), '2147483647-21474836482147483642'),
    ("type $t is (aa, 'x', bb, '\x27', \\Ext\\); subtype $s is $t range 'x' to '\x27';", '', 'constant $c : $s := bb;', 'variable v : $s;', "v := $s'right;", "$t'image($c) & $t'image(v) & $t'image(\\Ext\\) & " + I("$t'pos($s'left)") + " & $t'image($t'value(\"AA\"))", "bb'''\\Ext\\1aa"),
    ('type $r is record a : integer; b : string(1 to 3); c : real; end record; constant $c : $r := (c => 0.5, a => 7, b => "xyz"); type $ra is array (1 to 2) of $r;', '', 'constant $d : $ra := (1 => $c, 2 => (9, "pqr", 1.25)); constant $same : boolean := $d(1) = $c;', '', '', I('$d(2).a') + " & $d(1).b & $d(2).b(2 to 3) & boolean'image($same) & boolean'image($d(2).c = 1.25)", '9xyzqrtruetrue'),
    ('type $m is array (1 to 2, -1 to 1) of integer; constant $c : $m := ((1, 2, 3), (4, 5, 6));', '', "subtype $s is integer range $m'left(2) to $m'right(2); constant $f : integer := $c(2, $s'high);", '', '', I('$f + $c(1, -1)') + ' & ' + I("$c'length(2)"), '73'),
    ('type $p is range 0 to 1000000 units u1; u2 = 10 u1; u3 = 7 u2; end units; constant $c : $p := 3 u3;', '', 'constant $d : $p := $c + 2 u2;', '', '', "$p'image($d) & " + I('$d / u2'), '230 u123'),
    ('constant $c : real := 1.0 / 3.0; constant $d : real := 1.0e-300; constant $e : real := -0.0;', '', 'constant $f : real := $c * 3.0;', '', '', "boolean'image($f = 1.0) & boolean'image($d * 1.0e300 = 1.0) & boolean'image(1.0 / 3.0 = $c)", 'truetruetrue'),
    ('constant $c : string := "a""b%c" & NUL & character\'val(255) & "end";', '', 'constant $d : string := $c & $c;', '', '', I("$d'length") + ' & $c(1 to 5) & ' + I("character'pos($d(7))") + ' & ' + I("character'pos($d(6))"), '20a"b%c2550'),
    ('constant $c : integer; constant $d : bit_vector;', 'constant $c : integer := 41; constant $d : bit_vector := X"A5" & B"01";', '', '', '', I('$c + 1') + " & to_string($d) & " + I("$d'length"), '42101001010110'),
    ('function $f(a : integer; b : integer := 5; c : string := "dd") return integer;', "function $f(a : integer; b : integer := 5; c : string := \"dd\") return integer is begin return a * b + c'length; end function;", 'constant $c : integer := $f(3);', '', '', I('$c') + ' & ' + I('$f(2, c => "")') + ' & ' + I('$f(b => 2, a => 1)'), '17104'),
    ('type $t is protected procedure inc(n : integer); impure function get return integer; end protected;', 'type $t is protected body variable x : integer := 100; procedure inc(n : integer) is begin x := x + n; end procedure; impure function get return integer is begin return x; end function; end protected body;', 'shared variable $v : $t;', '', '$v.inc(5); $v.inc(-1);', I('$v.get'), '104'),
    ('procedure $p(a : in integer; b : out integer; c : inout bit_vector; signal s : in bit);', "procedure $p(a : in integer; b : out integer; c : inout bit_vector; signal s : in bit) is begin b := a + c'length; c := not c; if s = '1' then b := 0; end if; end procedure;", None, "variable x : integer; variable y : bit_vector(3 downto 1) := \"100\";", '$p(4, x, y, sg);', I('x') + ' & to_string(y)', '7011'),
    ('type $r is record x, y : integer; end record; function "+"(a, b : $r) return $r; function "-"(a : $r) return $r; function "="(a : $r; b : integer) return boolean;', 'function "+"(a, b : $r) return $r is begin return (a.x + b.x, a.y + b.y); end function; function "-"(a : $r) return $r is begin return (-a.x, -a.y); end function; function "="(a : $r; b : integer) return boolean is begin return a.x = b; end function;', 'constant $c : $r := (1, 2) + $r\'(3, 4);', 'variable v : $r;', 'v := -$c;', I('v.x') + ' & ' + I('v.y') + " & boolean'image($c = 4) & boolean'image($c = $c)", '-4-6truetrue'),
    ('type $l; type $p is access $l; type $l is record v : integer; n : $p; end record; procedure $push(p : inout $p; v : integer); function $sum(v : integer) return integer;', 'procedure $push(p : inout $p; v : integer) is begin p := new $l\'(v, p); end procedure; function $sum(v : integer) return integer is variable p, q : $p; variable r : integer := 0; begin for i in 1 to v loop $push(p, i); end loop; q := p; while q /= null loop r := r * 10 + q.v; q := q.n; end loop; return r; end function;', 'constant $c : integer := $sum(4);', '', '', I('$c') + ' & ' + I('$sum(2)'), '432121'),
    ("type $u is ('0', '1', 'Z'); type $uv is array (natural range <>) of $u; function $res(v : $uv) return $u; subtype $s is $res $u;", "function $res(v : $uv) return $u is begin for i in v'range loop if v(i) /= 'Z' then return v(i); end if; end loop; return 'Z'; end function;", 'type $sv is array (1 to 2) of $s;', '', '', "$u'image($res((1 => 'Z', 2 => '1')))", "'1'"),
    ('constant $c : bit_vector(7 downto 0) := X"3C"; alias $a : bit_vector(1 to 4) is $c(7 downto 4); alias $i is integer; function $f(x : integer) return integer; alias $g is $f [integer return integer];', 'function $f(x : integer) return integer is begin return x + 1; end function;', 'constant $d : $i := $g(5); alias $a2 : bit is $a(4);', '', '', I('$d') + " & to_string($a) & bit'image($a2)", "60011'1'"),
    ('attribute $at : string; type $t is (p, q); attribute $at of $t : type is "on type"; constant $c : integer := 1; attribute $at of $c : constant is "on const"; function $f return integer; attribute $at of $f [return integer] : function is "on func";', 'function $f return integer is begin return 1; end function;', "constant $d : string := $t'$at & '/';", '', '', "$d & $c'$at & \"/\" & $f[return integer]'$at", 'on type/on const/on func'),
    ('procedure $w(l : inout line; v : integer); type $ft is file of integer;', 'procedure $w(l : inout line; v : integer) is begin write(l, string\'("<")); write(l, v, right, 4); write(l, string\'(">")); end procedure;', None, 'variable l : line;', '$w(l, 42);', 'l.all', '<  42>'),
    ('type $r is record a : bit_vector; b : integer; end record; subtype $s is $r(a(1 to 3)); constant $c : $s := ("101", 5); function $f(x : $r) return integer;', "function $f(x : $r) return integer is begin return x.a'length * 10 + x.b; end function;", 'constant $d : $r(a(2 downto 1)) := ("01", 7);', '', '', I('$f($c)') + ' & ' + I('$f($d)') + ' & to_string($c.a) & ' + I("$d.a'left"), '35271012'),
    ('type $a is array (natural range <>) of bit_vector; constant $c : $a(1 to 2)(3 downto 0) := ("1100", "0011"); subtype $s is $a(open)(1 to 2);', '', 'constant $d : $s(5 to 6) := ("10", "01");', '', '', "to_string($c(2)) & to_string($d(5)) & " + I("$d'element'length") + ' & ' + I("$d'right"), '00111026'),
    ("function $f(c : character; s : bit_vector(1 downto 0)) return integer;", "function $f(c : character; s : bit_vector(1 downto 0)) return integer is begin case c is when 'a' to 'f' | '0' => case s is when \"00\" => return 1; when \"01\" | \"10\" => return 2; when others => null; end case; when '\xe9' => return 4; when others => return 5; end case; return 3; end function;", 'constant $c : integer := $f(\'c\', "10");', '', '', I('$c') + ' & ' + I("$f('0', \"11\")") + ' & ' + I("$f('\xe9', \"00\")") + ' & ' + I("$f('z', \"00\")"), '2345'),
    ('function $f(n : integer) return integer; function $g(n : natural) return natural;', 'function $f(n : integer) return integer is variable r : integer := 0; begin outer : for i in 1 to n loop for j in n downto i loop next outer when j = 3; exit outer when i * j > 30; r := r + i * j; end loop; end loop; return r; end function; function $g(n : natural) return natural is function h(k : natural) return natural is begin if k < 2 then return n; else return h(k - 1) + h(k - 2); end if; end function; begin if n = 0 then return 1; end if; return h(n); end function;', 'constant $c : integer := $f(6); constant $d : integer := $g(6);', '', '', I('$c') + ' & ' + I('$d') + ' & ' + I('$g(0)'), '205781'),
    ('constant $c : bit_vector(1 to 12) := (2 | 4 => \'1\', 6 to 8 => \'1\', others => \'0\'); constant $d : string(1 to 3) := (others => \'-\'); constant $n : bit_vector(5 to 4) := (others => \'1\');', '', "constant $e : integer := $n'length; constant $r : bit_vector := $c($c'left to 4);", '', '', "to_string($c) & $d & " + I('$e') + " & to_string($r)", '010101110000---00101'),
    ('function $f(a : bit_vector) return bit_vector; function $h(n : natural) return string;', "function $f(a : bit_vector) return bit_vector is variable v : bit_vector(a'length - 1 downto 0) := a; begin return v sll 1; end function; function $h(n : natural) return string is begin if n = 0 then return \"\"; else return $h(n / 2) & character'val(48 + n mod 2); end if; end function;", 'constant $c : string := $h(37); constant $d : bit_vector := $f("1011");', '', '', "$c & \"/\" & to_string($d) & " + I("$d'left"), '100101/01103'),
    ('constant $t : time := 1500 ps; constant $u : delay_length := 1 hr; subtype $r is real range -1.5 to 2.5;', '', "constant $c : $r := $r'low + 1.0;", '', '', "to_string($t, ns) & time'image($u / 3600) & boolean'image($c = -0.5)", '1.5 ns1000000000000000 fstrue'),
    ('type $e is (ea, eb, ec); type $x is array ($e) of integer; type $b is array (boolean, $e range ea to eb) of $e; constant $c : $x := (ec => 3, others => 1); constant $d : $b := (true => (ea => ec, eb => eb), false => (others => ea));', '', "constant $f : $e := $d(true, ea); constant $g : integer := $c($e'succ(eb));", '', '', "$e'image($f) & " + I('$g') + " & $e'image($d(false, eb)) & $e'image($e'leftof(ec))", 'ec3eaeb'),
    ('component $comp is generic (g : integer := 3; s : string := "cc"); port (a : in integer := 4; b : out integer); end component;', '', None, '', '', 'c_out(sgc)', '17cc'),
    ('signal $s : bit_vector(1 to 3) := "010"; signal $t : integer := 5;', '', "alias $a : bit_vector(1 to 3) is $s;", '', '$t <= 8; $a(1) <= \'1\'; wait for 1 fs;', "to_string($s) & " + I('$t') + " & boolean'image($t'stable(2 fs))", '1108false'),
    ("constant $c : integer := character'pos('\xfc'); type $ch is ('\xe4', 'b'); constant $d : string := \"\xc4\xd6\";", '', 'constant $e : $ch := $ch\'left;', '', '', I('$c') + ' & ' + I("$ch'pos($e)") + ' & ' + I("character'pos($d(2))"), '2520214'),
    ('function $f(s : string) return integer; function $f(s : bit_vector) return integer; function $f(s : integer) return string; procedure $f(s : inout integer);', "function $f(s : string) return integer is begin return s'length; end function; function $f(s : bit_vector) return integer is begin return s'length + 100; end function; function $f(s : integer) return string is begin return integer'image(s + 1000); end function; procedure $f(s : inout integer) is begin s := -s; end procedure;", "constant $c : integer := $f(string'(\"abc\")) + $f(bit_vector'(\"01\"));", 'variable v : integer := 3;', '$f(v);', I('$c') + ' & $f(v)', '105997'),
    ('function $f(a, b : bit_vector) return bit_vector;', 'function $f(a, b : bit_vector) return bit_vector is variable r : bit_vector(1 to 4); begin r := a when a > b else b; with a select r(1) := \'1\' when "0011", \'0\' when others; return r xor X"5"; end function;', 'constant $c : bit_vector := $f("0011", "1100");', '', '', 'to_string($c)', '1001'),
    ("type $n is range 10 downto -5; type $i64 is range -100000 to 100000; subtype $s is $n range 7 downto 0; constant $c : $n := $n'succ(3); constant $d : $i64 := 99999;", '', "constant $e : $i64 := $i64'high - $d; constant $f : $s := $s'left;", '', '', "$n'image($c) & $i64'image($e) & $n'image($f) & boolean'image($n'ascending)", '417false'),
    ('type $v is array (positive range <>) of integer; function $mx(a : $v) return integer; function "<"(a : $v; b : integer) return boolean;', 'function $mx(a : $v) return integer is alias x : $v(1 to a\'length) is a; variable m : integer := integer\'low; begin for i in x\'range loop m := maximum(m, x(i)); end loop; return m; end function; function "<"(a : $v; b : integer) return boolean is begin return $mx(a) < b; end function;', "constant $c : $v := (3, 9, 2); constant $d : boolean := $c < 10;", '', '', I('$mx($c)') + " & boolean'image($d) & " + I('minimum($c)') + ' & ' + I("$c'right"), '9true23'),
]
GENPKG = """package gp is
  generic (type t; n : integer; function im(x : t) return string; package ip is new work.gi generic map (<>); v : t);
  constant c : integer := n * 2;
  type arr is array (1 to n) of t;
  function f(x : t) return string;
  type pr is protected
    procedure put(x : t);
    impure function get return t;
  end protected;
end package;
package body gp is
  function f(x : t) return string is
  begin
    return im(x) & "." & ip.g & "." & integer'image(c) & "." & im(v);
  end function;
  type pr is protected body
    variable s : t := v;
    procedure put(x : t) is begin s := x; end procedure;
    impure function get return t is begin return s; end function;
  end protected body;
end package body;
"""
GI = """package gi is
  generic (k : string);
  function g return string;
end package;
package body gi is
  function g return string is begin return "[" & k & "]"; end function;
end package body;
"""


def project():
    sub = lambda s, i: s.replace('$', 's%d_' % i)
    def each(k):
        return ''.join('  -- %d\n  %s\n' % (i, sub(t[k], i).replace('; ', ';\n  ')) for i, t in enumerate(T) if t[k])
    f = {}
    f['gi'] = GI
    f['gp'] = GENPKG
    f['pk'] = 'use std.textio.all;\npackage pk is\n' + each(0) + """  procedure gsw generic (type t) parameter (a, b : inout t);
  function gmax generic (type t; function ">"(a, b : t) return boolean is <>) parameter (a, b : t) return t;
end package;
"""
    f['pb'] = 'package body pk is\n' + each(1) + """  procedure gsw generic (type t) parameter (a, b : inout t) is
    variable x : t := a;
  begin
    a := b;
    b := x;
  end procedure;
  function gmax generic (type t; function ">"(a, b : t) return boolean is <>) parameter (a, b : t) return t is
  begin
    if a > b then return a; else return b; end if;
  end function;
end package body;
"""
    f['p2'] = """use work.pk.all;
package p2 is
""" + each(2) + """  procedure swi is new gsw generic map (t => integer);
  function mxr is new gmax generic map (t => real);
  package gi1 is new work.gi generic map (k => "key");
  function im(x : integer) return string;
  package gp1 is new work.gp generic map (t => integer, n => 3, im => im, ip => gi1, v => 77);
end package;
package body p2 is
  function im(x : integer) return string is begin return "<" & integer'image(x) & ">"; end function;
end package body;
context cx is
  library std;
  use std.textio.all;
  library work;
  use std.env.all;
end context;
""".replace('  library work;\n', '')
    f['en'] = """entity comp is
  generic (g : integer := 3; s : string := "x");
  port (a : in integer := 4; b : out integer);
end entity;
architecture rtl of comp is
begin
  b <= a * g + 5;
end architecture;
"""
    k = [i for i, t in enumerate(T) if 'component' in t[0]][0]
    procs = ''
    for i, t in enumerate(T):
        procs += sub("""  $q: process is
    %s
  begin
    wait for 10 ns;
    %s
    report "@%d|" & %s;
    wait;
  end process;
""" % (t[3], t[4], i, t[5]), i)
    f['us'] = """context work.cx;
use work.pk.all, work.p2.all;
entity us is end entity;
architecture a of us is
  signal sg : bit;
  signal sgc : integer;
  function c_out(x : integer) return string is begin return integer'image(x) & "cc"; end function;
  shared variable pv : gp1.pr;
begin
  uc : component s%d_comp port map (b => sgc);
%s  qg : process is
    variable x : integer := 1; variable y : integer := 2;
    variable ar : gp1.arr;
  begin
    wait for 10 ns;
    swi(x, y);
    ar := (x, y, x);
    report "@g1|" & gp1.f(x) & integer'image(y) & integer'image(gp1.c) & integer'image(ar'length);
    report "@g2|" & boolean'image(mxr(1.5, 0.5) = 1.5) & integer'image(pv.get);
    wait;
  end process;
end architecture;
configuration kc of us is
  for a
    for uc : s%d_comp use entity work.comp(rtl) generic map (g => g, s => s);
    end for;
  end for;
end configuration;
""" % (k, procs, k)
    exp = sorted(['@%d|%s' % (i, t[6]) for i, t in enumerate(T)] + ['@g1|<2>.[key].6.<77>163', '@g2|true77'])
    return f, exp


DEPS2 = {'gi': '', 'gp': 'gi', 'pk': '', 'pb': 'pk', 'p2': 'pk gp gi pb', 'en': '', 'us': 'p2 pk en'}


def orders(deps):
    def go(done):
        if len(done) == len(deps):
            yield list(done)
            return
        for u in deps:
            if u not in done and all(d in done for d in deps[u].split()):
                yield from go(done + [u])
    return list(go([]))


def partitions(n):
    """all ways to cut a sequence of n commands into runs"""
    for m in range(1 << (n - 1)):
        cuts = [i + 1 for i in range(n - 1) if m >> i & 1]
        yield list(zip([0] + cuts, cuts + [n]))


def p16():
    s = open(os.path.join(HERE, 'P16.py')).read().split("\ndef main():")[0]
    ns = {'__file__': os.path.join(HERE, 'P16.py')}
    exec(compile(s, 'P16', 'exec'), ns)
    return ns


def main():
    c = vf.Check('P13', 'model_checking')
    c.build()
    cov = {'orders': 0, 'command sequences': 0, 'invocations': 0}

    def sequence(d, cmds, cuts, pre, std='2008'):
        out = ''
        for a, b in cuts:
            args = sum(cmds[a:b], [])
            r = c.nvc(args, d, std=std, pre=pre)
            cov['invocations'] += 1
            out += r.out
            if r.rc != 0:
                return r.rc, out
        return 0, out

    def check(what, files, cmds, cuts, exp, pat, pre=()):
        d = c.dir('s-%d' % next(check.n))
        cov['command sequences'] += 1
        rc, out = sequence(d, cmds, cuts, pre)
        got = sorted(re.findall(pat, out))
        if rc != 0 or got != exp:
            miss = [x for x in exp if x not in got][:4]
            extra = [x for x in got if x not in exp][:4]
            runs = ' ; '.join(' '.join(sum(cmds[a:b], [])).replace(src + '/', '') for a, b in cuts)
            c.violation('%s:%s' % (what, runs), '%s: runs "%s": status %d, missing %s, unexpected %s%s' % (what, runs, rc, miss, extra, '' if miss or extra else out[-300:]), {'output.txt': out, **{f: open(src + '/' + f, encoding='latin-1').read() for f in files}})
        shutil.rmtree(d)
    check.n = itertools.count()
    src = c.dir('src')

    # part 1
    m = p16()
    st = m['State']()
    one = {}
    for u in 'pbexatk':
        one[u] = 'one_%s.vhd' % u
        with open(src + '/' + one[u], 'w') as f:
            f.write(m['fix'](m['text'](u, 1, 1), 1))
    deps = {u: ' '.join(v) for u, v in m['DEPS'].items()}
    ods = orders(deps)
    cov['orders'] += len(ods)
    jobs = []
    for i, o in enumerate(ods):
        s = m['State']()
        for u in o:
            s.analyse(u, 1)
        exp = s.expect('k')
        for aot in (False, True):
            cmds = [['-a', src + '/' + one[u]] for u in o] + [['-e'] + ([] if aot else ['--jit']) + ['k'], ['-r', 'k']]
            n = len(cmds)
            if c.thorough and not aot:
                cs = [x for j, x in enumerate(partitions(n)) if (i + j) % 16 == 0]
            elif aot:
                cs = [[(0, n)], [(j, j + 1) for j in range(n)]] if i % 4 == 0 else []
            else:
                cs = [[(0, n)], [(j, j + 1) for j in range(n)]] + [[(0, j), (j, n)] for j in range(1, n)]
            if i == 0 and not aot:
                cs = list(partitions(n))
            jobs += [('project', list(one.values()), cmds, x, exp, r'@.*') for x in cs]
    c.pmap(lambda j: check(*j), jobs)
    c.log('part 1: %s' % cov)

    # libraries
    lib = {'p': 0, 'b': 0, 'e': 1, 'a': 1, 'x': 1, 't': 2, 'k': 2}
    jobs = []
    for ass in ((0, 0, 0), (0, 0, 1), (0, 1, 0), (0, 1, 1), (0, 1, 2)):
        for variant in ('separate', 'joined'):
            d0 = 'lib%s' % ''.join(map(str, ass))
            names = ['l%d' % x for x in ass]
            cmds, files = [], []
            for u in 'pbexatk':
                t = m['fix'](m['text'](u, 1, 1), 1)
                t = re.sub(r'work\.p\b', names[0] + '.p', t)
                t = re.sub(r'work\.e\b', names[1] + '.e', t)
                use = {'p': (), 'e': names[:1], 't': names[:2], 'k': names[1:2]}.get(u, ())
                head = ''.join('library %s;\n' % x for x in sorted(set(use)))
                fn = '%s_%s.vhd' % (d0, u)
                with open(src + '/' + fn, 'w') as f:
                    f.write(head + t)
                files.append(fn)
                cmds.append((names[lib[u]], ['-a', src + '/' + fn]))
            cmds += [(names[2], ['-e', '--jit', 'k']), (names[2], ['-r', 'k'])]
            jobs.append((ass, variant, cmds, files))

    def libjob(j):
        ass, variant, cmds, files = j
        d = c.dir('lib-%s-%s' % (''.join(map(str, ass)), variant))
        s = m['State']()
        for u in 'pbexatk':
            s.analyse(u, 1)
        out, rc = '', 0
        groups = [[x] for x in cmds]
        if variant == 'joined':
            groups = [[cmds[0]]]
            for x in cmds[1:]:
                if x[0] == groups[-1][0][0]:
                    groups[-1].append(x)
                else:
                    groups.append([x])
        for g in groups:
            r = c.nvc(sum((x[1] for x in g), []), d, work=g[0][0], pre=['-L', d])
            cov['invocations'] += 1
            out += r.out
            rc = r.rc
            if rc:
                break
        cov['command sequences'] += 1
        got = sorted(re.findall(r'@.*', out))
        if rc or got != s.expect('k'):
            c.violation('libraries:%s:%s' % (ass, variant), 'units in libraries %s, %s runs: status %d, got %s: %s' % (ass, variant, rc, got, out[-400:]), {'output.txt': out})
    c.pmap(libjob, jobs)

    # part 2
    f, exp = project()
    two = {}
    for k, t in f.items():
        two[k] = 'two_%s.vhd' % k
        with open(src + '/' + two[k], 'w', encoding='latin-1') as h:
            h.write(t)
    ods = orders(DEPS2)
    c.log('part 2: %d orders, %d entries' % (len(ods), len(exp)))
    step = 1 if c.thorough else max(1, len(ods) // 18)
    jobs = []
    for i, o in enumerate(ods[::step]):
        cov['orders'] += 1
        for aot in (False, True):
            if aot and i % 3:
                continue
            cmds = [['-a', src + '/' + two[k]] for k in o] + [['-e'] + ([] if aot else ['--jit']) + ['kc'], ['-r', 'kc']]
            n = len(cmds)
            ps = list(partitions(n))
            if i == 0 and not aot:
                cs = ps
            else:
                cs = [ps[0], ps[-1]] + ([] if aot else [ps[(37 * (i + j)) % len(ps)] for j in range(4)])
            jobs += [('table', list(two.values()), cmds, x, exp, r'@[g\d]+\|.*') for x in cs]
    c.pmap(lambda j: check(*j), jobs)
    cov['stored objects'] = len(exp)
    c.finish(cov, [])


if __name__ == '__main__':
    vf.main(main)
