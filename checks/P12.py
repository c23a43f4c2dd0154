#!/usr/bin/env python3
"""P12: text conversion round-trips every value and rejects malformed text.

Model: lexical rules of literals and of the text input procedures, in Python.

Enumeration:
 R  'image / 'value, to_string and write / read round trips of every enumeration
    literal, every short bit vector, and boundary integers, reals, and physical
    values in every unit;
 V  'value applied to every string up to a length over the characters of the
    literals, and to every edit (case, space, deletion, doubling) of a legal one;
 T  every text input procedure applied to every line up to a length over an
    alphabet, the line being stored with three kinds of bounds;
 W  every output procedure with every justification and field width.
"""
import os, re, sys, itertools, math, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

I32 = (-2**31, 2**31 - 1)
I64 = (-2**63, 2**63 - 1)
WS = ' \t'

PK = r"""package pk is
  type en is (alpha, 'a', 'A', ' ', ''', beta_2, \x y\, \Alpha\, al, alp);
  subtype es is en range 'a' to beta_2;
  type sm is range -100 to 100;
  type wd is range -9000000000000000000 to 9000000000000000000;
  type dn is range 10 downto -3;
  type wt is range -9223372036854775807 to 9223372036854775807 units u; v = 7 u; wu = 1000 v; end units;
  type rr is range -10.0 to 10.0;
end package;
"""

# the interpreter: each line is a command character and a text
INTERP = PK + r'''use std.textio.all;
use work.pk.all;
entity t is end entity;
architecture a of t is
begin
  p: process
    file s : text open read_mode is "script";
    file o : text open write_mode is "log";
    variable l, m : line;
    variable k : integer;
    procedure value(c : character; x : string) is
    begin
      case c is
        when 'i' => write(m, integer'image(integer'value(x)));
        when 'n' => write(m, natural'image(natural'value(x)));
        when 's' => write(m, sm'image(sm'value(x)));
        when 'w' => write(m, wd'image(wd'value(x)));
        when 'd' => write(m, dn'image(dn'value(x)));
        when 'e' => write(m, en'image(en'value(x)));
        when 'E' => write(m, es'image(es'value(x)));
        when 'b' => write(m, boolean'image(boolean'value(x)));
        when 'c' => write(m, character'image(character'value(x)));
        when 'r' => write(m, real'image(real'value(x)));
        when 'R' => write(m, rr'image(rr'value(x)));
        when 't' => write(m, time'image(time'value(x)));
        when 'u' => write(m, wt'image(wt'value(x)));
        when 'v' => write(m, severity_level'image(severity_level'value(x)));
        when others => report "bad" severity failure;
      end case;
    end procedure;
    procedure line_of(x : string; form : character; r : inout line) is
      alias xx : string(1 to x'length) is x;
    begin
      case form is
        when '0' => r := new string'(xx);
        when '1' => r := new string(11 to 10 + x'length); r.all := x;
        when others => r := new string(x'length + 4 downto 5); r.all := x;
      end case;
    end procedure;
    procedure rd(c, form : character; x : string) is
      variable r : line;
      variable g : boolean;
      variable b : bit; variable bo : boolean; variable ch : character; variable i : integer; variable re : real; variable ti : time;
      variable v0 : bit_vector(0 downto 1); variable v1 : bit_vector(3 to 3); variable v2 : bit_vector(1 downto 0); variable v3 : bit_vector(0 to 2);
      variable v4 : bit_vector(4 downto 1); variable v5 : bit_vector(1 to 5);
      variable st : string(1 to 3); variable n : natural;
    begin
      line_of(x, form, r);
      case c is
        when 'b' => read(r, b, g); if g then write(m, b); end if;
        when 'o' => read(r, bo, g); if g then write(m, bo); end if;
        when 'c' => read(r, ch, g); if g then write(m, ch); end if;
        when 'i' => read(r, i, g); if g then write(m, i); end if;
        when 'r' => read(r, re, g); if g then write(m, to_string(re)); end if;
        when 't' => read(r, ti, g); if g then write(m, time'image(ti)); end if;
        when 's' => read(r, st, g); if g then write(m, st); end if;
        when 'S' => g := true; st := "###"; sread(r, st, n); write(m, n); write(m, ','); write(m, st(1 to n));
        when '0' => read(r, v0, g); if g then write(m, v0); end if;
        when '1' => read(r, v1, g); if g then write(m, v1); end if;
        when '2' => read(r, v2, g); if g then write(m, v2); end if;
        when '3' => read(r, v3, g); if g then write(m, v3); end if;
        when 'A' => oread(r, v1, g); if g then write(m, v1); end if;
        when 'B' => oread(r, v3, g); if g then write(m, v3); end if;
        when 'C' => oread(r, v4, g); if g then write(m, v4); end if;
        when 'D' => hread(r, v2, g); if g then write(m, v2); end if;
        when 'F' => hread(r, v4, g); if g then write(m, v4); end if;
        when 'G' => hread(r, v5, g); if g then write(m, v5); end if;
        when others => report "bad" severity failure;
      end case;
      write(m, '|');
      write(m, boolean'pos(g));
      if g then write(m, '|'); write(m, r.all); end if;
    end procedure;
  begin
    while not endfile(s) loop
      readline(s, l);
      m := new string'("");
      if l(1) = 'V' then value(l(2), l(3 to l'length));
      else rd(l(2), l(3), l(4 to l'length)); end if;
      writeline(o, m);
    end loop;
    report "done";
    wait;
  end process;
end architecture;
'''

ENUM = ['alpha', "'a'", "'A'", "' '", "'''", 'beta_2', '\\x y\\', '\\Alpha\\', 'al', 'alp']
CHARS = ['nul soh stx etx eot enq ack bel bs ht lf vt ff cr so si dle dc1 dc2 dc3 dc4 nak syn etb can em sub esc fsp gsp rsp usp'.split(),
         'c128 c129 c130 c131 c132 c133 c134 c135 c136 c137 c138 c139 c140 c141 c142 c143 c144 c145 c146 c147 c148 c149 c150 c151 c152 c153 c154 c155 c156 c157 c158 c159'.split()]


def char_image(n):
    if n < 32:
        return CHARS[0][n]
    if n == 127:
        return 'del'
    if 128 <= n < 160:
        return CHARS[1][n - 128]
    return "'%s'" % chr(n)


INTS = {'i': I32, 'n': (0, I32[1]), 's': (-100, 100), 'w': (-9 * 10**18, 9 * 10**18), 'd': (-3, 10)}
UNITS = {'t': ({'fs': 1, 'ps': 10**3, 'ns': 10**6, 'us': 10**9, 'ms': 10**12, 'sec': 10**15, 'min': 60 * 10**15, 'hr': 3600 * 10**15}, 'fs'),
         'u': ({'u': 1, 'v': 7, 'wu': 7000}, 'u')}
ENUMS = {'e': ENUM, 'E': ENUM, 'b': ['false', 'true'], 'c': [char_image(i) for i in range(256)], 'v': ['note', 'warning', 'error', 'failure']}


def up(x):
    return ''.join(z.upper() if z.isascii() else z for z in x)


def sw(x):
    return x.swapcase() if x.isascii() else x


def fold(x):
    return x if x[:1] in ("'", '\\') else x.lower()


def mvalue(c, x):
    """(accepted texts or None, must_accept): set of allowed results of 'value; None means rejected"""
    y = x.strip(WS)
    if c in INTS:
        lo, hi = INTS[c]
        m = re.match(r'^([+-]?)([0-9_]*[0-9][0-9_]*)$', y)
        if not m:
            return {None}
        v = int(m[2].replace('_', '')) * (-1 if m[1] == '-' else 1)
        ok = None if not lo <= v <= hi else str(v)
        strict = re.match(r'^-?[0-9]+(_[0-9]+)*$', y)
        return {ok} if strict else {ok, None}
    if c in ENUMS:
        r = None
        for i, e in enumerate(ENUMS[c]):
            if fold(y) == e:
                r = e
                if c == 'E' and not 1 <= i <= 5:
                    r = None
        return {r}
    if c in 'rR':
        m = re.match(r'^[+-]?[0-9]*\.?[0-9]*([eE][+-]?[0-9]+)?$', y)
        if not m or not re.search('[0-9]', y.lower().split('e')[0]):
            return {None}
        v = float(y)
        if math.isinf(v) or (c == 'R' and abs(v) > 10.0):
            return {None}
        strict = re.match(r'^-?[0-9]+\.[0-9]+([eE][+-]?[0-9]+)?$', y)
        return {v} if strict else {v, None}
    if c in UNITS:
        units, prim = UNITS[c]
        m = re.match(r'^([+-]?)([0-9_]*[0-9][0-9_]*)([ \t]*)([a-zA-Z]+)$', y)
        if not m or m[4].lower() not in units:
            return {None}
        v = int(m[2].replace('_', '')) * units[m[4].lower()] * (-1 if m[1] == '-' else 1)
        ok = None if not -(2**63) <= v < 2**63 else '%d %s' % (v, prim)
        strict = re.match(r'^-?[0-9]+(_[0-9]+)*[ \t]+[a-zA-Z]+$', y)
        return {ok} if strict else {ok, None}
    assert 0


def same(c, want, got):
    if isinstance(want, float):
        try:
            g = float(got)
        except ValueError:
            return False
        return g == want or abs(g - want) <= 4e-15 * abs(want) or (abs(want) < 1e-306 and abs(g - want) < 1e-306)
    return want == got


def values(thorough):
    out = []
    for c in 'ins':
        for n in range(0, 5 if thorough else 4):
            for x in itertools.product(' -+_10' if c == 'i' else '-1 0', repeat=n):
                out.append((c, ''.join(x)))
    for c, (lo, hi) in INTS.items():
        for v in {lo, hi, lo + 1, hi - 1, lo - 1, hi + 1, 0, 1, -1, 9, 10, 2**31, 2**32, 2**32 + 1, -2**31 - 1, 2**63 - 1, 2**63, -2**63, -2**63 - 1, 2**64 - 1, 2**64, 2**64 + 1, 10**19, 10**30,
                  92233720368547758070, 9223372036854775800, 9223372036854775809}:
            for f in ('%d', ' %d', '%d ', '\t%d  ', '0%d' if v >= 0 else '%d', '%dx', '%d 1', '%d-', 'x%d'):
                out.append((c, f % v))
    for c, lits in ENUMS.items():
        ls = lits if c != 'c' or thorough else [lits[i] for i in list(range(0, 34)) + [39, 48, 65, 90, 92, 97, 122, 127, 128, 159, 160, 192, 255]]
        for e in ls:
            v = [e, up(e), ' ' + e, e + '\t', ' ' + (up(e[:1]) + e[1:]) + ' ', e + e, '"' + e + '"', e + ' ' + e]
            if len(e) < 8 or thorough:
                for i in range(len(e) + 1):
                    v += [e[:i] + ' ' + e[i:], e[:i] + "'" + e[i:]]
                    if i < len(e):
                        v += [e[:i] + e[i + 1:], e[:i] + sw(e[i]) + e[i + 1:], e[:i] + e[i] + e[i:], e[:i]]
            out += [(c, z) for z in v]
    for n in range(0, 6 if thorough else 5):
        for x in itertools.product('-1.e0' if n > 3 else '-+1.e 0', repeat=n):
            out.append(('r', ''.join(x)))
    for e in list(range(-308, 309, 1 if thorough else 11)) + [-307, -23, -22, -15, -10, -9, -1, 0, 1, 9, 10, 11, 15, 16, 17, 21, 22, 23, 24, 99, 100, 101, 307]:
        for mant in ('1.0', '-1.5', '9.999999999999999', '1.2345678901234567', '1234567890.0', '0.000000012', '123456789012345678901.5'):
            out.append(('r', '%se%d' % (mant, e)))
            if e >= 0:
                out.append(('r', '%sE+%02d' % (mant, e)))
    out += [('R', x) for x in ('10.0', '-10.0', '10.000001', '-10.5', '0.0', '1.0e1', '1.0e2', '11.0')]
    for c, (units, prim) in UNITS.items():
        for u in list(units) + [x.upper() for x in units] + ['x', 'f', 'nss', 'n s', 'hrs', '']:
            for v in ('0', '1', '-1', '12', '+3', '1_0', '9223372036854775807', '9223372036854775808', '18446744073709551617', '1.5', '1e3', '', '-', '2562047', '2562048', '1317624576693539401'):
                for sep in (' ', '', '  ', '\t'):
                    out.append((c, v + sep + u))
                out.append((c, ' ' + v + ' ' + u + ' '))
                out.append((c, v + ' ' + u + ' ' + u))
                out.append((c, v + ' ' + u + ' 1'))
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x)) and '\n' not in x[1]]


# ------------------------------------------------------------------ text input

def mread(c, x):
    """set of allowed (value, rest); None = not good"""
    y = x.lstrip(WS)
    if c == 'b':
        return {(y[0], y[1:])} if y[:1] in ('0', '1') and y else {None}
    if c == 'o':
        m = re.match('(?i)true|false', y)
        if not m:
            return {None}
        r = (m[0].lower(), y[m.end():])
        return {r, None} if y[m.end():m.end() + 1].isalnum() else {r}
    if c == 'c':
        return {(x[0], x[1:])} if x else {None}
    if c == 's':
        return {(x[:3], x[3:])} if len(x) >= 3 else {None}
    if c == 'S':
        m = re.match(r'[^ \t]{0,3}', y)
        return {('%d,%s' % (len(m[0]), m[0]), y[m.end():])}
    if c == 'i':
        m = re.match(r'[+-]?[0-9]+', y)
        if not m:
            return {None}
        v = int(m[0])
        if not I32[0] <= v <= I32[1]:
            return {None}
        return {(str(v), y[m.end():])}
    if c == 'r':
        m = re.match(r'[+-]?[0-9]+(\.[0-9]+)?([eE][+-]?[0-9]+)?', y)
        if not m:
            return {None}
        v = float(m[0])
        if math.isinf(v):
            return {None}
        rest = y[m.end():]
        r = (v, rest)
        # text that continues like a number may be rejected
        return {r, None} if rest[:1] in ('.', 'e', 'E') and rest else {r}
    if c == 't':
        m = re.match(r'([+-]?)([0-9]+)(?:\.([0-9]+))?([ \t]*)(?i:(fs|ps|ns|us|ms|sec|min|hr))', y)
        if not m:
            return {None}
        u = UNITS['t'][0][m[5].lower()]
        fr = m[3] or ''
        v = (int(m[2]) * 10**len(fr) + int(fr or '0')) * u // 10**len(fr)
        if v > I64[1]:
            return {None}
        r = ('%d fs' % (-v if m[1] == '-' else v), y[m.end():])
        lenient = not m[4] or y[m.end():m.end() + 1].isalnum()
        return {r, None} if lenient else {r}
    if c in '0123':
        n = int(c)
        m = re.match('[ \t]*' + '([01])' * n, x) if n else re.match('', x)
        if m:
            return {(''.join(m.groups()), x[m.end():])}
        m = re.match(r'[ \t]*([01])' * n, x)         # white space between the bits may be skipped
        return {None, (''.join(m.groups()), x[m.end():])} if m else {None}
    kind = {'A': (8, 1), 'B': (8, 3), 'C': (8, 4), 'D': (16, 2), 'F': (16, 4), 'G': (16, 5)}[c]
    base, width = kind
    per = 3 if base == 8 else 4
    nd = (width + per - 1) // per
    d = '[0-7]' if base == 8 else '[0-9a-fA-F]'
    m = re.match(d + ('_?' + d) * (nd - 1), y)
    if not m:
        return {None}
    v = int(m[0].replace('_', ''), base)
    if v >= 2**width:
        return {None}
    return {(format(v, '0%db' % width), y[m.end():])}


def reads(thorough):
    k = 1 if thorough else 0
    out = []

    def allstr(c, alpha, n):
        for ln in range(0, n + 1):
            for x in itertools.product(alpha, repeat=ln):
                out.append((c, ''.join(x)))
    allstr('b', '01 x\t', 3)
    allstr('c', 'a 1', 2)
    allstr('s', 'a 1', 4)
    allstr('S', 'a \t1', 5)
    allstr('i', '-+1 09x.', 4)
    allstr('r', '-+1.e 0' if thorough else '-+1.e ', 5)
    allstr('t', ['-', '1', '.', ' ', 'ns', 'f', 'ps', 'n'], 4)
    allstr('t', ['1', ' ', 'fs', 's', 'sec', 'min', '\t'], 4)
    for c in '0123':
        allstr(c, '01 x', 5)
    for c in 'ABCDFG':
        allstr(c, '0138_f ' if thorough else '038_f ', 4 + k)
    for w in ('true', 'false', 'TRUE', 'False', 'fAlSe'):
        for i in range(len(w) + 1):
            for z in (w[:i], w[:i] + ' ' + w[i:], w[:i] + w[i + 1:], w[:i] + w[i:i + 1].swapcase() + w[i + 1:]):
                for pre in ('', ' ', '\t ', 'x'):
                    for post in ('', ' ', '1', 'x', ' true'):
                        out.append(('o', pre + z + post))
    for v in (0, 1, 2**31 - 1, 2**31, 2**31 + 1, 2147483649, 21474836470, 2**32, 2**32 + 1, 2**63, 10**20, 2147483639, 2147483640):
        for s in ('', '-', '+', '--', '+-', '- ', '-0', '00'):
            for post in ('', ' 1', ',', '-1'):
                out += [('i', s + str(v) + post), ('r', s + str(v) + post), ('r', s + str(v) + '.5' + post), ('r', s + '0.%d' % v + post)]
            for u in UNITS['t'][0]:
                out += [('t', s + str(v) + ' ' + u), ('t', s + '%d.%d %s' % (v % 1000, v, u)), ('t', s + str(v) + u.upper() + ' ')]
    for e in list(range(-308, 309, 3 if thorough else 17)) + [-320, -23, -22, -1, 0, 1, 22, 23, 308, 309, 400, 99999999999]:
        for mant in ('1.0', '0.3', '-1.5', '+9.999999999999999', '0.1', '123456789012.125', '0.0', '17'):
            out += [('r', '%se%d' % (mant, e)), ('r', '%sE+%d ' % (mant, e) if e >= 0 else '%sE%d x' % (mant, e))]
    for a in UNITS['t'][0]:
        for b in UNITS['t'][0]:
            out += [('t', '5 ' + a + b), ('t', '5 ' + a + ' ' + b), ('t', '5 %s 6 %s' % (a, b)), ('t', '0.000001 ' + a)]
    for v in (I64[1], I64[1] - 1, I64[1] + 1, I64[1] // 1000, I64[1] // 1000 + 1, 9223372036854775000, 9223372036854775808000):
        for u in ('fs', 'ps', 'ns', 'sec', 'hr'):
            out += [('t', '%d %s' % (v, u)), ('t', '-%d %s' % (v, u)), ('t', '0.%d %s' % (v, u))]
    for x in ('2562047.788015215', '2562047.788015216', '2562048.0', '153722867.280912930', '9223.372036854775807', '9223.372036854775808'):
        out += [('t', '%s %s' % (x, u)) for u in UNITS['t'][0]]
    seen = set()
    res = []
    for i, z in enumerate(out):
        if z in seen:
            continue
        seen.add(z)
        if z[0] == 't' and re.search(r'(?i)\.[0-9]{14,} *(min|hr)', z[1]):
            continue            # not a whole number of fs
        # one kind of line bounds for long enumerations, all for short texts
        for form in ('012' if len(z[1]) <= 3 or thorough else '0' if i % 3 else '012'):
            res.append((z[0], form, z[1]))
    return res


# ------------------------------------------------------------------ fixed designs

def round_design(std):
    r8 = '0.0, 1.0, -1.0, 0.1, 0.3, -0.7, 1.0e10, 1.0e22, 1.0e23, 1.0e-5, 123456.789, 1.0/3.0, 2.0/3.0e10, 1.0e100, 1.0e-100, -4.9e-300, 16777217.0, 4503599627370497.5, 1.0e15, 1.0e16, 1.0e17'
    return PK + r'''use std.textio.all;
use work.pk.all;
entity t is end entity;
architecture a of t is
  type rv is array (natural range <>) of real;
  type tv is array (natural range <>) of time;
  type iv is array (natural range <>) of integer;
  type wv is array (natural range <>) of wt;
  constant rs : rv := (''' + r8 + r''');
  constant ts : tv := (0 fs, 1 fs, 999 fs, 1 ps, 1500 ps, 1 ns, 1 us, 1001 ns, 1 ms, 1 sec, 1 min, 90 sec, 1 hr, 2 hr, time'high, -1 fs, -1500 ps, -1 hr, -time'high);
  constant us : tv := (fs, ps, ns, us, ms, sec, min, hr);
  constant ints : iv := (0, 1, -1, 9, 10, -10, 99, 100, integer'high, integer'low, integer'high - 1, integer'low + 1, 1000000000);
  function close(a, b : real; tol : real) return boolean is
  begin
    if a = b then return true; end if;
    return abs(a / 4.0 - b / 4.0) <= tol * (abs(a) / 4.0);
  end function;
begin
  p: process
    variable l : line;
    variable b : boolean; variable c : character; variable i : integer; variable r : real; variable ti : time; variable g : boolean; variable bi : bit;
    function str(s : string) return string is
      alias ss : string(1 to s'length) is s;
    begin return ss; end function;
    procedure fin is
    begin
      assert l'length = 0 report "text left: " & l.all severity error;
    end procedure;
  begin
    for x in en loop assert en'value(en'image(x)) = x report "en " & en'image(x) severity error; assert en'value("  " & en'image(x) & " ") = x; end loop;
    for x in es loop assert es'value(es'image(x)) = x report "es" severity error; end loop;
    for x in boolean loop assert boolean'value(boolean'image(x)) = x and boolean'value(to_string(x)) = x report "boolean" severity error; end loop;
    for x in character loop assert character'value(character'image(x)) = x report "character " & integer'image(character'pos(x)) severity error;
      assert to_string(x) = (1 => x) report "to_string character" severity error; end loop;
    for x in bit loop assert bit'value(bit'image(x)) = x and to_string(x)(1) = bit'image(x)(2) report "bit" severity error; end loop;
    for x in severity_level loop assert severity_level'value(severity_level'image(x)) = x report "severity" severity error; end loop;
    for x in file_open_kind loop assert file_open_kind'value(file_open_kind'image(x)) = x report "kind" severity error; end loop;
    for x in sm loop assert sm'value(sm'image(x)) = x and sm'value(to_string(x)) = x report "sm" severity error; end loop;
    for x in dn loop assert dn'value(dn'image(x)) = x report "dn" severity error; end loop;
    for k in ints'range loop
      assert integer'value(integer'image(ints(k))) = ints(k) report "integer image " & integer'image(ints(k)) severity error;
      assert integer'value(to_string(ints(k))) = ints(k) report "integer to_string" severity error;
      for f in 0 to 3 loop for s in side loop
        write(l, ints(k), s, f * 6); read(l, i, g);
        assert g and i = ints(k) report "integer write " & integer'image(ints(k)) severity error;
        if s = right then fin; end if; deallocate(l);
      end loop; end loop;
    end loop;
    for k in rs'range loop
      assert close(real'value(real'image(rs(k))), rs(k), 4.0e-15) report "real image " & real'image(rs(k)) severity error;
      assert close(real'value(to_string(rs(k))), rs(k), 4.0e-15) report "real to_string " & to_string(rs(k)) severity error;
      write(l, to_string(rs(k))); read(l, r, g);
      assert g and close(r, rs(k), 4.0e-15) report "real read " & to_string(rs(k)) & " " & to_string(r) severity error; fin; deallocate(l);
      write(l, rs(k), left, 30); read(l, r, g);
      assert g and close(r, rs(k), 1.0e-6) report "real write " & to_string(rs(k)) & " " & to_string(r) severity error; deallocate(l);
      if abs(rs(k)) < 1.0e18 then
        for d in 1 to 9 loop
          write(l, rs(k), right, 0, d); read(l, r, g);
          assert g and abs(r - rs(k)) <= 0.51 * 10.0 ** (-d) + abs(rs(k)) * 4.0e-15 report "real digits " & to_string(rs(k)) & " " & to_string(r) severity error; fin; deallocate(l);
        end loop;
      end if;
    end loop;
    for k in ts'range loop
      assert time'value(time'image(ts(k))) = ts(k) report "time image " & time'image(ts(k)) severity error;
      assert time'value(to_string(ts(k))) = ts(k) report "time to_string " & to_string(ts(k)) severity error;
      for u in us'range loop
        -- exactly representable in the unit
        if us(u) <= ms or ts(k) mod us(u) = 0 fs or (ts(k) / 1 ms) * 1 ms = ts(k) then
          write(l, ts(k), right, 0, us(u));
          if l'length < 26 then
            read(l, ti, g);
            if us(u) < min or ts(k) mod us(u) = 0 fs then
              assert g and ti = ts(k) report "time write " & to_string(ts(k)) & " unit " & to_string(us(u)) & " " & to_string(ti) severity error;
            end if;
          end if;
          deallocate(l);
        end if;
        if ts(k) mod us(u) = 0 fs and us(u) < hr then
          write(l, to_string(ts(k), us(u))); read(l, ti, g);
          assert g and ti = ts(k) report "time to_string " & to_string(ts(k)) & " unit " & to_string(us(u)) & " = " & to_string(ts(k), us(u)) severity error; fin; deallocate(l);
        end if;
      end loop;
    end loop;
    for q in -20 to 20 loop
      assert wt'value(wt'image(q * q * q * 1 wu + q * 1 v + 1 u)) = q * q * q * 1 wu + q * 1 v + 1 u report "wt" severity error;
    end loop;
    assert wt'value(wt'image(wt'high)) = wt'high and wt'value(wt'image(wt'low)) = wt'low report "wt bounds" severity error;
    assert wd'value(wd'image(wd'high)) = wd'high and wd'value(wd'image(wd'low)) = wd'low report "wd bounds" severity error;
    for x in boolean loop for s in side loop for f in 0 to 8 loop
      write(l, x, s, f); read(l, b, g); assert g and b = x report "boolean write" severity error; if s = right or f < 4 then fin; end if; deallocate(l);
    end loop; end loop; end loop;
    for x in character loop
      write(l, x); read(l, c, g); assert g and c = x report "character write" severity error; fin; deallocate(l);
    end loop;
    report "done";
    wait;
  end process;
  vec: process
    variable l : line;
    variable g : boolean;
    procedure one(v : bit_vector) is
      variable a : bit_vector(v'range);
      variable b : bit_vector(1 to v'length);
      variable n : natural;
    begin
      write(l, v); read(l, a, g); assert g and a = v and l'length = 0 report "bit_vector " & to_string(v) severity error; deallocate(l);
      write(l, v, left, 10); read(l, b, g); assert g and b = v report "bit_vector left" severity error; deallocate(l);
      hwrite(l, v); hread(l, a, g); assert g and a = v and l'length = 0 report "hwrite " & to_string(v) severity error; deallocate(l);
      owrite(l, v, right, 9); oread(l, a, g); assert g and a = v and l'length = 0 report "owrite " & to_string(v) severity error; deallocate(l);
      bwrite(l, v); bread(l, b, g); assert g and b = v report "bwrite" severity error; deallocate(l);
      write(l, to_hstring(v)); hread(l, b, g); assert g and b = v report "to_hstring " & to_string(v) severity error; deallocate(l);
      write(l, to_ostring(v)); oread(l, b, g); assert g and b = v report "to_ostring " & to_string(v) severity error; deallocate(l);
      assert to_bstring(v) = to_string(v) and to_hstring(v)'length = (v'length + 3) / 4 and to_ostring(v)'length = (v'length + 2) / 3 report "lengths" severity error;
      n := 0; for i in v'range loop n := n * 2 + bit'pos(v(i)); end loop;
      assert to_string(v)'length = v'length report "to_string length" severity error;
    end procedure;
  begin
    for w in 1 to 9 loop
      for n in 0 to 2 ** w - 1 loop
        for dir in boolean loop
          if dir then
            one_to: block_1(w, n);
          end if;
        end loop;
      end loop;
    end loop;
    wait;
  end process;
end architecture;
'''


def fix_round(s):
    # two loops instead of a nested block (built here to keep the text above readable)
    a = s.index('        for dir in boolean loop\n          if dir then')
    b = s.index('        end loop;\n', s.index('end if;', a)) + len('        end loop;\n')
    body = '''        one(conv(n, w)); one(convd(n, w));
'''
    s = s[:a] + body + s[b:]
    fn = '''    function conv(n, w : natural) return bit_vector is
      variable r : bit_vector(1 to w);
    begin
      for i in 1 to w loop if (n / 2 ** (w - i)) mod 2 = 1 then r(i) := '1'; end if; end loop;
      return r;
    end function;
    function convd(n, w : natural) return bit_vector is
      variable r : bit_vector(w + 2 downto 3);
    begin
      r := conv(n, w);
      return r;
    end function;
    procedure one(v'''
    return s.replace('    procedure one(v', fn, 1)


COMPOSITE = '''package pk2 is
  type ia is array (natural range <>) of integer;
  type en is (aa, bb, cc);
  type ea is array (1 to 2) of en;
  type ba is array (0 to 1) of boolean;
  type r1 is record a : integer; b : boolean; end record;
  type r2 is record x : r1; y : ea; z : character; end record;
  type ra is array (1 to 2) of r1;
end package;
use work.pk2.all;
entity t is end entity;
architecture a of t is
begin
  p: process
    subtype i3 is ia(1 to 3);
    variable i : i3; variable e : ea; variable b : ba; variable q : r1; variable s : r2; variable v : ra;
  begin
    for x in -2 to 2 loop for y in -2 to 2 loop
      i := (x, y * 1000, x + y);
      assert i3'value(i3'image(i)) = i report "ia" severity error;
      for f in boolean loop
        q := (x * y, f);
        assert r1'value(r1'image(q)) = q report "r1" severity error;
        v := (q, (y, not f));
        assert ra'value(ra'image(v)) = v report "ra" severity error;
        for k in en loop for k2 in en loop
          e := (k, k2);
          assert ea'value(ea'image(e)) = e report "ea" severity error;
          s := (q, e, character'val(67 + x));
          assert r2'value(r2'image(s)) = s report "r2" severity error;
        end loop; end loop;
      end loop;
    end loop; end loop;
    for f in boolean loop for g in boolean loop
      b := (f, g);
      assert ba'value(ba'image(b)) = b report "ba" severity error;
    end loop; end loop;
    report "done";
    wait;
  end process;
end architecture;
'''


def small(what):
    body = {
        'nested': "m := ((true, false), (false, false)); assert m2'value(m2'image(m)) = m report \"m2\" severity error;",
        'bit-vector': "assert b3'value(b3'image(bv)) = bv report \"bv\" severity error;",
        'real-high': "for i in 0 to 1 loop r := r; assert real'value(real'image(r)) = r report \"real\" severity error; r := -r; end loop;",
        'long-text': "assert to_string(r / 1.0e278, 5)'length = 37 and to_string(r, string'(\"%f\"))'length = 316 and to_string(1.0, string'(\"%80.1f\"))'length = 80 report \"length\" severity error;"
                     " for i in 1 to 40 loop assert to_string(1.0e20, i)'length = 22 + i report \"digits\" severity error; end loop;",
        'time-exact': "assert to_string(1 fs, ns) = \"0.000001 ns\" and to_string(-1000000001 fs, ns) = \"-1000.000001 ns\" and to_string(time'high, sec) = \"9223.372036854775807 sec\""
                      " and to_string(-1 fs, sec) = \"-0.000000000000001 sec\" report to_string(1 fs, ns) & to_string(-1000000001 fs, ns) & to_string(time'high, sec) & to_string(-1 fs, sec) severity error;",
    }[what]
    return '''entity t is end entity;
architecture a of t is
  type ba is array (0 to 1) of boolean;
  type m2 is array (1 to 2) of ba;
begin
  p: process
    subtype b3 is bit_vector(2 downto 0); variable bv : b3; variable m : m2; variable r : real := real'high;
  begin
    %s
    report "done";
    wait;
  end process;
end architecture;
''' % body


def write_items():
    """(expression of the value, text)"""
    return [('123', '123'), ('-5', '-5'), ('true', 'true'), ("bit'('1')", '1'), ("character'('x')", 'x'), ('bit_vector\'("0110")', '0110'), ('string\'("ab c")', 'ab c'),
            ('string\'("")', ''), ('15 ns', '15 ns'), ('1500 ps', '1.5 ns'), ('-3 us', '-3000 ns')]


def write_design():
    stm = []
    exp = []
    for v, t in write_items():
        for s in ('left', 'right'):
            for f in range(0, 9):
                stm.append('write(l, character\'(\'[\')); write(l, %s, %s, %d); write(l, character\'(\']\')); writeline(o, l);' % (v, s, f))
                exp.append('[' + (t.ljust(f) if s == 'left' else t.rjust(f)) + ']')
    for v, t in write_items():
        if 'character' in v or 'string' in v:
            continue
        for f in range(0, 9, 2):
            stm.append("write(l, justify(to_string(%s), left, %d)); writeline(o, l);" % (v, f))
            ts = {'15 ns': '15000000 fs', '1500 ps': '1500000 fs', '-3 us': '-3000000000 fs'}.get(v, t)
            exp.append(ts.ljust(f))
    for base, fn in ((8, 'owrite'), (16, 'hwrite')):
        for bits in ('1', '0', '101', '1011', '11011', '10101010', '0000001111', '111111111111'):
            for s in ('left', 'right'):
                for f in (0, 1, 2, 5):
                    stm.append('%s(l, bit_vector\'("%s"), %s, %d); writeline(o, l);' % (fn, bits, s, f))
                    per = 3 if base == 8 else 4
                    t = format(int(bits, 2), '0%d%s' % (-(-len(bits) // per), 'o' if base == 8 else 'X'))
                    exp.append(t.ljust(f) if s == 'left' else t.rjust(f))
    for r in ('0.0', '1.0', '-1.5', '3.14159', '0.1', '123456.789', '1.0e10', '1.0e-3', '2.5', '0.5', '9.9999'):
        for d in range(1, 6):
            stm.append('write(l, to_string(%s, %d)); writeline(o, l);' % (r, d))
            exp.append('%.*f' % (d, float(r)))
            stm.append('write(l, real\'(%s), right, 0, %d); writeline(o, l);' % (r, d))
            exp.append('%.*f' % (d, float(r)))
            for f in ('%%.%de', '%%.%df', '%%.%dg', '%%10.%df', '%%-12.%de', '%%012.%df'):
                stm.append('write(l, to_string(%s, string\'("%s"))); writeline(o, l);' % (r, f % d))
                exp.append((f % d) % float(r))
    for v, u, t in (('1500 ps', 'ns', '1.5 ns'), ('1 us', 'ns', '1000 ns'), ('1 fs', 'ps', '0.001 ps'), ('90 sec', 'min', '1.5 min'), ('-1 ns', 'ps', '-1000 ps'), ('0 ns', 'ns', '0 ns'), ('30 min', 'hr', '0.5 hr'), ('1 hr', 'sec', '3600 sec')):
        stm.append('write(l, %s, right, 0, %s); writeline(o, l);' % (v, u))
        exp.append(t)
        stm.append('write(l, to_string(%s, %s)); writeline(o, l);' % (v, u))
        exp.append(t)
    procs = ''
    for i in range(0, len(stm), 100):
        procs += 'procedure q%d is begin %s end procedure;\n' % (i, '\n'.join(stm[i:i + 100]))
    calls = ' '.join('q%d;' % i for i in range(0, len(stm), 100))
    return 'use std.textio.all;\nentity t is end entity;\narchitecture a of t is\nbegin\n p: process\n file o : text open write_mode is "log"; variable l : line;\n%sbegin %s report "done"; wait; end process;\nend architecture;\n' % (procs, calls), exp, stm


def main():
    c = vf.Check('P12', 'model_checking')
    c.build('basic')
    n = 0

    def design(name, text, std='2008'):
        d = '%s/%s' % (c.work, name)
        os.makedirs(d)
        open(d + '/t.vhd', 'w', encoding='latin-1').write(text)
        r = c.nvc(['-a', 't.vhd', '-e', 't'], d, std=std)
        if r.rc != 0:
            c.die('%s: %s' % (name, r.out[:1500]))
        return d

    def script(lib, k, lines):
        d = '%s/s%s' % (c.work, k)
        shutil.copytree(lib, d)
        open(d + '/script', 'w', encoding='latin-1').write(''.join(x + '\n' for x in lines))
        r = c.nvc(['-r', 't'], d)
        log = open(d + '/log', encoding='latin-1', newline='').read().split('\n')[:-1] if os.path.exists(d + '/log') else []
        shutil.rmtree(d, ignore_errors=True)
        return r, log
    di = design('interp', INTERP)

    # V
    vals = values(c.thorough)
    sure = [v for v in vals if None not in mvalue(*v)]
    rest = [v for v in vals if None in mvalue(*v)]
    for part in range(0, len(sure), 20000):
        chunk = sure[part:part + 20000]
        pos = 0
        while pos < len(chunk):
            r, log = script(di, 'v%d_%d' % (part, pos), ['V' + a + b for a, b in chunk[pos:]])
            for (a, b), g in zip(chunk[pos:], log):
                n += 1
                w = next(iter(mvalue(a, b)))
                if not same(a, w, g):
                    c.violation('value:%s' % a, "'value of type %s applied to %r: expected %s, got %s" % (a, b, w, g), {'t.vhd': INTERP})
            pos += len(log)
            if pos < len(chunk):
                a, b = chunk[pos]
                c.violation('value:%s' % a, "'value of type %s applied to the legal text %r was rejected: %s" % (a, b, r.out[:300]), {'t.vhd': INTERP})
                pos += 1
                if len(c.violations) > 20:
                    break

    def rej(job):
        k, (a, b) = job
        r, log = script(di, 'r%d' % k, ['V' + a + b])
        w = mvalue(a, b)
        if log:
            return None if any(x is not None and same(a, x, log[0]) for x in w) else \
                (a, "'value of type %s applied to %r: expected %s, got %s" % (a, b, 'an error' if w == {None} else w, log[0]))
        return None if r.rc == 1 and 'done' not in r.out else (a, "'value of type %s applied to %r: status %s, %s" % (a, b, r.rc, r.out[:300]))
    for b in c.pmap(rej, list(enumerate(rest))):
        n += 1
        if b:
            c.violation('value:' + b[0], b[1], {'t.vhd': INTERP})

    # T
    rds = reads(c.thorough)
    size = (len(rds) + 7) // 8

    def rd(k):
        chunk = rds[k * size:(k + 1) * size]
        r, log = script(di, 't%d' % k, ['T' + a + f + x for a, f, x in chunk])
        bad = []
        for i, (a, f, x) in enumerate(chunk):
            if i >= len(log):
                bad.append((a, 'read %s of %r (bounds %s): run ended: %s' % (a, x, f, r.out[:300])))
                break
            g = log[i].rsplit('|', 1) if log[i].endswith('|0') else None
            w = mread(a, x)
            if log[i] == '|0':
                got = None
                ok = None in w
            else:
                m = re.match(r'^(.*?)\|1\|(.*)$', log[i], re.S)
                got = (m[1], m[2]) if m else log[i]
                ok = m and any(z is not None and same(a, z[0], m[1]) and z[1] == m[2] for z in w)
            if not ok:
                bad.append((a, 'read %s of %r (bounds %s): expected %s, got %s' % (a, x, f, w, got)))
        return len(log), bad
    for k, bad in c.pmap(rd, list(range(8))):
        n += k
        for b in bad[:5]:
            c.violation('read:' + b[0], b[1], {'t.vhd': INTERP})

    # R and W
    wd, wexp, wst = write_design()

    def fixed(job):
        name, text, std = job
        d = design(name, text, std)
        r = c.nvc(['-r', 't'], d, std=std, timeout=300)
        if r.rc != 0 or 'rror:' in r.out or 'done' not in r.out:
            return name, '%s: %s' % (name, r.out[:700]), text
        if name == 'write':
            log = open(d + '/log').read().split('\n')[:-1]
            for s, e, g in zip(wst, wexp, log):
                if e != g:
                    return name, '%s: expected %r, got %r' % (s, e, g), text
    for b in c.pmap(fixed, [('round', fix_round(round_design('2008')), '2008'), ('round19', fix_round(round_design('2019')), '2019'), ('composite', COMPOSITE, '2019'), ('write', wd, '2008')] + [(w, small(w), '2019') for w in ('nested', 'bit-vector', 'real-high', 'long-text', 'time-exact')]):
        if b:
            c.violation('round:' + b[0], b[1], {'t.vhd': b[2]})
    n += len(wexp) + 2 * 2 * 1022 + 900
    c.finish({'states': n, 'transitions': n, 'traces_validated_against_impl': n, 'values': len(vals), 'texts_read': len(rds), 'runs_expecting_rejection': len(rest), 'exhaustive': True,
              'samples': [repr(v) for v in rest[::max(1, len(rest) // 6)]]},
             ['conversions of reals are compared within 4e-15 relative'])


if __name__ == '__main__':
    vf.main(main)
