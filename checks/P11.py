#!/usr/bin/env python3
"""P11: control flow takes exactly the branches VHDL defines.

(a) All programs of a small statement grammar (two nested loops of every kind,
with every statement of the grammar in the inner and the outer loop) are run
and the trace of executed marks is compared with an interpreter of the same
syntax tree.  (b) All layouts of case statements and selected assignments over
small domains, for every selector value."""
import os, re, shutil, sys, itertools, struct, threading
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

M = 9973
CONDS = ['i = 1', 'j = 1', 'i = j', 'j > i', 't mod 2 = 0']
CEVAL = {'i = 1': lambda e: e['i'] == 1, 'j = 1': lambda e: e['j'] == 1, 'i = j': lambda e: e['i'] == e['j'], 'j > i': lambda e: e['j'] > e['i'], 't mod 2 = 0': lambda e: e['t'] % 2 == 0,
         'i = 1 and j = 1': lambda e: e['i'] == 1 and e['j'] == 1, 'i = 1 or j = 1': lambda e: e['i'] == 1 or e['j'] == 1, 'not (i = j)': lambda e: e['i'] != e['j']}


class Exit(Exception):
    pass


class Next(Exception):
    pass


class Ret(Exception):
    pass


def text(s, ind):
    p = ' ' * ind
    k = s[0]
    if k == 'mark':
        return p + 't := (t * 3 + %d) mod %d;\n' % (s[1], M)
    if k == 'null':
        return p + 'null;\n'
    if k in ('exit', 'next'):
        return p + k + (' ' + s[1] if s[1] else '') + (' when ' + s[2] if s[2] else '') + ';\n'
    if k == 'return':
        return p + '$R\n'
    if k == 'wait':
        return p + 'wait for 0 ns;\n'
    if k == 'if':
        o = ''
        for n, (c, b) in enumerate(s[1]):
            o += p + ('if %s then\n' % c if n == 0 else 'elsif %s then\n' % c if c else 'else\n') + ''.join(text(x, ind + 2) for x in b)
        return o + p + 'end if;\n'
    if k == 'case':
        return p + 'case %s is\n' % s[1] + ''.join(p + '  when %s =>\n' % ' | '.join(map(str, cs)) + ''.join(text(x, ind + 4) for x in b) for cs, b in s[2]) + p + 'end case;\n'
    if k == 'seq':
        return ''.join(text(x, ind) for x in s[1])
    lab, kind, v, body = s[1:]
    b = ''.join(text(x, ind + 2) for x in body)
    if kind == 'for':
        return p + '%s: for %s in 0 to 2 loop\n' % (lab, v) + b + p + 'end loop;\n'
    if kind == 'down':
        return p + '%s: for %s in 2 downto 0 loop\n' % (lab, v) + b + p + 'end loop;\n'
    if kind == 'dyn':
        return p + '%s: for %s in lo to hi loop\n' % (lab, v) + b + p + 'end loop;\n'
    if kind == 'null':
        return p + '%s: for %s in hi to lo loop\n' % (lab, v) + b + p + 'end loop;\n'
    if kind == 'one':
        return p + '%s: for %s in 1 to 1 loop\n' % (lab, v) + b + p + 'end loop;\n'
    # variables count from -1, incremented first, so that next cannot loop forever
    inc = ' ' * (ind + 2) + '%s := %s + 1;\n' % (v, v)
    if kind == 'while':
        return p + '%s := -1;\n' % v + p + '%s: while %s < 2 loop\n' % (lab, v) + inc + b + p + 'end loop;\n'
    return p + '%s := -1;\n' % v + p + '%s: loop\n' % lab + inc + ' ' * (ind + 2) + 'exit when %s > 2;\n' % v + b + p + 'end loop;\n'


def run(s, e):
    k = s[0]
    if k == 'mark':
        e['t'] = (e['t'] * 3 + s[1]) % M
    elif k == 'exit':
        if not s[2] or CEVAL[s[2]](e):
            raise Exit(s[1])
    elif k == 'next':
        if not s[2] or CEVAL[s[2]](e):
            raise Next(s[1])
    elif k == 'return':
        raise Ret
    elif k == 'if':
        for c, b in s[1]:
            if not c or CEVAL[c](e):
                for x in b:
                    run(x, e)
                break
    elif k == 'case':
        for cs, b in s[2]:
            if e[s[1]] in cs or 'others' in cs:
                for x in b:
                    run(x, e)
                break
    elif k == 'seq':
        for x in s[1]:
            run(x, e)
    elif k == 'loop':
        lab, kind, v, body = s[1:]
        old = e.get(v)
        its = {'for': [0, 1, 2], 'down': [2, 1, 0], 'dyn': [0, 1, 2], 'null': [], 'one': [1]}.get(kind)
        e[v] = -1
        n = 0
        try:
            while True:
                if its is not None:
                    if n >= len(its):
                        break
                    e[v] = its[n]
                    n += 1
                else:
                    if kind == 'while' and not e[v] < 2:
                        break
                    e[v] += 1
                    if kind == 'loop' and e[v] > 2:
                        break
                try:
                    for x in body:
                        run(x, e)
                except Next as x:
                    if x.args[0] not in (None, lab):
                        raise
        except Exit as x:
            if x.args[0] not in (None, lab):
                raise
        finally:
            if its is not None:
                e[v] = old


def simple(outer):
    """Statements that may stand alone in the inner loop."""
    o = [('null',), ('mark', 5), ('return',), ('wait',)]
    for k in ('exit', 'next'):
        for l in (None, 'l2', 'l1'):
            o.append((k, l, None))
    return o


def programs(thorough):
    S0 = simple(True)
    J = [s for s in S0 if s[0] not in ('null', 'mark')]
    Z = []
    for s in S0:
        Z.append(s)
    for k in ('exit', 'next'):
        for l in (None, 'l2', 'l1'):
            for c in CONDS + ['i = 1 and j = 1', 'i = 1 or j = 1', 'not (i = j)']:
                Z.append((k, l, c))
    for c in CONDS:
        for a in S0:
            Z.append(('if', [(c, [a, ('mark', 7)] if a[0] in ('mark', 'null', 'wait') else [a])]))
            for b in S0:
                Z.append(('if', [(c, [a]), (None, [b])]))
    for c1, c2 in itertools.permutations(CONDS[:4], 2):
        for a, b, d in itertools.product(J, [('mark', 11), ('exit', None, None), ('next', 'l1', None), ('wait',)], [('mark', 13), ('return',), ('next', None, None)]):
            Z.append(('if', [(c1, [a]), (c2, [b]), (None, [d])]))
    for v in 'ij':
        for a, b, d in itertools.product(S0, J, J[:4] if not thorough else S0):
            Z.append(('case', v, [([0], [a]), ([1, 2], [b]), (['others'], [d])]))
        for a, b in itertools.product(S0, J):
            Z.append(('case', v, [([1], [a]), (['others'], [b])]))
    kinds = ['for', 'down', 'while', 'loop', 'dyn']
    pairs = list(itertools.product(kinds, kinds)) + [('null', 'for'), ('for', 'null'), ('one', 'dyn'), ('dyn', 'one'), ('one', 'one')]
    n = 0
    for zi, z in enumerate(Z):
        for pi, (ka, kb) in enumerate(pairs):
            if not thorough and (zi * 7 + pi) % 10 >= 3 and zi > 90:
                continue
            if z[0] == 'case' and {ka, kb} & {'one', 'null'}:
                continue    # the subtype of the parameter excludes choices
            inner = ('loop', 'l2', kb, 'j', [('mark', 1), z, ('mark', 2)])
            yield ('seq', [('loop', 'l1', ka, 'i', [('mark', 3), inner, ('mark', 4)]), ('mark', 6)])
            # and after the inner loop, with the jump depending on the outer loop only
            if zi % 4 == 0 and 'l2' not in repr(z) and "j" not in repr([x for x in flat(z)]):
                yield ('seq', [('loop', 'l1', ka, 'i', [('loop', 'l2', kb, 'j', [('mark', 1), ('next', None, 'j = 1'), ('mark', 2)]), z, ('mark', 4)]), ('mark', 6)])


def flat(z):
    if isinstance(z, (tuple, list)):
        for x in z:
            yield from flat(x)
    elif isinstance(z, str):
        yield z if 'j' in z else ''


def used_vars(s):
    """The loop variables declared as variables (not loop parameters)."""
    o = set()

    def f(x):
        if isinstance(x, (tuple, list)):
            if len(x) == 5 and x[0] == 'loop':
                if x[2] in ('while', 'loop'):
                    o.add(x[3])
            for y in x:
                f(y)
    f(s)
    return o


def expect(s):
    e = {'t': 1, 'i': None, 'j': None}
    try:
        run(s, e)
    except Ret:
        pass
    return e['t']


def has_wait(s):
    return "'wait'" in repr(s)


def program_design(progs):
    subs, calls = [], []
    for n, s in enumerate(progs):
        decl = 'variable t : integer := 1; constant lo : integer := zero; constant hi : integer := zero + 2; '
        for v in 'ij':
            if v in used_vars(s):
                decl += 'variable %s : integer; ' % v
        body = text(s, 4)
        if has_wait(s):
            subs.append('  procedure p%d(r : out integer; zero : integer) is %s begin\n%s    r := t;\n  end procedure;' % (n, decl, body.replace('$R', 'r := t; return;')))
            calls.append('p%d(r, zero); write(o, r);' % n)
        else:
            subs.append('  function p%d(zero : integer) return integer is %s begin\n%s    return t;\n  end function;' % (n, decl, body.replace('$R', 'return t;')))
            calls.append('r := p%d(zero); write(o, r);' % n)
    return '''entity t is end entity;
architecture a of t is
  type tfile is file of integer;
%s
begin
  p: process
    file o : tfile open write_mode is "o.bin";
    variable r : integer;
    variable zero : integer := 0;
  begin
    %s
    wait;
  end process;
end architecture;
''' % ('\n'.join(subs), '\n    '.join(calls))


# ---- case layouts

def partitions(xs):
    if not xs:
        yield []
        return
    x, rest = xs[0], xs[1:]
    for p in partitions(rest):
        for k in range(len(p)):
            yield p[:k] + [[x] + p[k]] + p[k + 1:]
        yield [[x]] + p


def as_choices(vals, lit, style):
    """vals (sorted positions) as a choice list, runs given as ranges according to style."""
    runs = []
    for v in vals:
        if runs and v == runs[-1][-1] + 1:
            runs[-1].append(v)
        else:
            runs.append([v])
    out = []
    for r in runs:
        if style and len(r) > 1:
            out.append('%s to %s' % (lit(r[0]), lit(r[-1])) if style == 1 else '%s downto %s' % (lit(r[-1]), lit(r[0])))
        else:
            out += [lit(v) for v in r]
    if style == 3:
        out.append('%s to %s' % (lit(vals[-1]), lit(vals[0])) if len(vals) > 1 else out[0])
        out = out if len(vals) > 1 else out[:1]
    return ' | '.join(out)


def case_layouts(thorough):
    """name, type, base expression over v : integer, list of (selector v, branch), alternatives."""
    types = [('int', 'integer range -1 to 3', 'v - 1', lambda p: str(p - 1), 5),
             ('big', 'integer', '(v - 2) * 1000000000', lambda p: str((p - 2) * 1000000000), 5),
             ('enum', 'color', "color'val(v)", lambda p: 'c%d' % p, 5),
             ('char', 'character', "character'val(v + 64)", lambda p: "'%s'" % chr(p + 64), 5),
             ('bool', 'boolean', 'v = 1', lambda p: ['false', 'true'][p], 2),
             ('bv1', 'bit_vector(0 to 0)', 'bv(v, 1)', lambda p: '"%s"' % format(p, '01b'), 2),
             ('bv2', 'bit_vector(1 downto 0)', 'bv(v, 2)', lambda p: '"%s"' % format(p, '02b'), 4),
             ('bv3', 'bit_vector(3 to 5)', 'bv(v + 2, 3)', lambda p: '"%s"' % format(p + 2, '03b'), 5),
             ('bv64', 'bit_vector(63 downto 0)', 'long(v, 64)', lambda p: '"%s"' % long(p, 64), 5),
             ('bv70', 'bit_vector(69 downto 0)', 'long(v, 70)', lambda p: '"%s"' % long(p, 70), 5),
             ('str', 'string(2 to 4)', 'str(v)', lambda p: '"%s"' % ['abc', 'acb', 'bac', 'ab ', 'abd'][p], 5),
             ('str9', 'string(1 to 9)', 'str(v) & "012345"', lambda p: '"%s012345"' % ['abc', 'acb', 'bac', 'ab ', 'abd'][p], 5)]
    for name, ty, expr, lit, n in types:
        scalar = name in ('int', 'big', 'enum', 'char', 'bool')
        full = name in ('int', 'enum', 'bool', 'bv1', 'bv2')
        for part in partitions(list(range(n))):
            for others in range(len(part) + 1):
                # others stands for block number 'others' (or for nothing when equal to len)
                if not full and others == len(part) and name != 'none':
                    kinds = ['extra']
                else:
                    kinds = ['none']
                styles = (0, 1, 2, 3) if scalar and name not in ('big', 'bool') else (0,)
                for style in styles:
                    alts, br = [], {}
                    rot = (len(part) + style) % 2
                    order = list(range(len(part)))
                    if rot:
                        order.reverse()
                    for b in order:
                        for v in part[b]:
                            br[v] = b
                        if b != others:
                            alts.append((as_choices(sorted(part[b]), lit, style), b))
                    if others < len(part):
                        alts.append(('others', others))
                    elif not (full and name != 'enum' or name == 'enum' and n == 5):
                        alts.append(('others', 99))
                    yield name, ty, expr, n, alts, br


def long(v, n):
    base = [(i * 7 + 3) % 5 % 2 for i in range(n)]
    # values that differ in one bit, or in two swapped bits
    if v == 1:
        base[0] ^= 1
    elif v == 2:
        base[-1] ^= 1
    elif v == 3:
        base[n // 2] ^= 1
    elif v == 4:
        base[0] ^= 1
        base[-1] ^= 1
    return ''.join(map(str, base))


def case_design(items):
    fns, calls, exp, sig, sigcalls = [], [], [], [], []
    for k, (name, ty, expr, n, alts, br) in enumerate(items):
        al = '\n'.join('      when %s => return %d;' % (c, b) for c, b in alts)
        fns.append('  function c%d(v : integer) return integer is variable x : %s := %s; begin\n    case x is\n%s\n    end case;\n    return -1;\n  end function;' % (k, ty, expr, al))
        sel = ', '.join('%d when %s' % (b, c) for c, b in alts)
        fns.append('  procedure s%d(v : integer; r : out integer) is variable x : %s := %s; begin\n    r := -2;\n    with x select r := %s;\n  end procedure;' % (k, ty, expr, sel))
        for v in range(n):
            calls.append('write(o, c%d(%d)); s%d(%d, r); write(o, r);' % (k, v, k, v))
            exp += [br[v], br[v]]
    return '''entity t is end entity;
architecture a of t is
  type tfile is file of integer;
  type color is (c0, c1, c2, c3, c4);
  type carr is array (natural range <>) of color;
  function bv(v, n : integer) return bit_vector is variable r : bit_vector(1 to n); variable q : integer := v; begin
    for k in n downto 1 loop r(k) := bit'val(q mod 2); q := q / 2; end loop; return r; end function;
  function str(v : integer) return string is begin
    case v is when 0 => return "abc"; when 1 => return "acb"; when 2 => return "bac"; when 3 => return "ab "; when others => return "abd"; end case; end function;
  function long(v, n : integer) return bit_vector is variable r : bit_vector(0 to n - 1); begin
    for k in r'range loop r(k) := bit'val(((k * 7 + 3) mod 5) mod 2); end loop;
    if v = 1 or v = 4 then r(0) := not r(0); end if;
    if v = 2 or v = 4 then r(n - 1) := not r(n - 1); end if;
    if v = 3 then r(n / 2) := not r(n / 2); end if;
    return r; end function;
%s
begin
  p: process
    file o : tfile open write_mode is "o.bin";
    variable r : integer;
  begin
    %s
    wait;
  end process;
end architecture;
''' % ('\n'.join(fns), '\n    '.join(calls)), exp


# ---- matching case statements and selected assignments, conditional assignments

def match(x, ch):
    # LRM 08 9.2.3 table for "?="
    for a, b in zip(x, ch):
        if b == '-':
            continue
        a2, b2 = {'L': '0', 'H': '1'}.get(a, a), {'L': '0', 'H': '1'}.get(b, b)
        if a2 != b2 or a2 not in '01':
            return False
    return True


def mcase_items():
    """Choices over {0,1,-} of length 1 and 2 without overlap; every selector over the nine values without '-'."""
    out = []
    for n in (1, 2):
        chs = [''.join(p) for p in itertools.product('01-', repeat=n)]
        conc = [''.join(p) for p in itertools.product('01', repeat=n)]
        for r in range(1, 4):
            for sel in itertools.permutations(chs, r):
                if any(any(match(x, a) and match(x, b) for x in conc) for a, b in itertools.combinations(sel, 2)):
                    continue
                if r == 3 and list(sel) != sorted(sel) and n == 2 and sel[0] > sel[2]:
                    continue
                out.append((n, sel))
    return out


def mcase_design(items):
    fns, calls, exp = [], [], []
    for k, (n, sel) in enumerate(items):
        lit = (lambda s: "'%s'" % s) if n == 1 else (lambda s: '"%s"' % s)
        ty = 'std_ulogic' if n == 1 else 'std_ulogic_vector(1 downto 0)'
        al = '\n'.join('      when %s => return %d;' % (lit(c), i) for i, c in enumerate(sel))
        fns.append('  function c%d(x : %s) return integer is begin\n    case? x is\n%s\n      when others => return 9;\n    end case?;\n  end function;' % (k, ty, al))
        fns.append('  procedure s%d(x : %s; r : out integer) is begin\n    with x select? r := %s, 9 when others;\n  end procedure;' % (k, ty, ', '.join('%d when %s' % (i, lit(c)) for i, c in enumerate(sel))))
        for p in itertools.product('UX01ZWLH', repeat=n):
            x = ''.join(p)
            calls.append('write(o, c%d(%s)); s%d(%s, r); write(o, r);' % (k, lit(x), k, lit(x)))
            m = [i for i, c in enumerate(sel) if match(x, c)]
            exp += [m[0] if m else 9] * 2
    return '''library ieee; use ieee.std_logic_1164.all;
entity t is end entity;
architecture a of t is
  type tfile is file of integer;
%s
begin
  p: process
    file o : tfile open write_mode is "o.bin";
    variable r : integer;
  begin
    %s
    wait;
  end process;
end architecture;
''' % ('\n'.join(fns), '\n    '.join(calls)), exp


def conc_design():
    """Concurrent and sequential conditional and selected assignments driven over all values of their inputs."""
    forms, ref = [], []
    conds = ['a = 1', 'b = 1', 'a = b', 'a > 1', 'false', 'true']
    ev = {'a = 1': lambda a, b: a == 1, 'b = 1': lambda a, b: b == 1, 'a = b': lambda a, b: a == b, 'a > 1': lambda a, b: a > 1, 'false': lambda a, b: False, 'true': lambda a, b: True}
    for c1, c2 in itertools.product(conds, repeat=2):
        for tail in (True, False):
            forms.append('1 when %s else 2 when %s%s' % (c1, c2, ' else 3' if tail else ''))
            ref.append(lambda a, b, old, c1=c1, c2=c2, tail=tail: 1 if ev[c1](a, b) else 2 if ev[c2](a, b) else 3 if tail else old)
    sig, var, chk = [], [], []
    for k, f in enumerate(forms):
        sig.append('  q%d: s(%d) <= %s;' % (k, k, f))
        sig.append('  r%d: process (a, b) begin u(%d) <= %s; end process;' % (k, k, f))
        var.append('      v(%d) := %s;' % (k, f))
    n = len(forms)
    sel = []
    lay = [p for p in partitions([0, 1, 2])]
    sref = []
    for p in lay:
        for oth in range(len(p) + 1):
            cs = ['%d when %s' % (i, ' | '.join(map(str, g))) for i, g in enumerate(p) if i != oth] + (['%d when others' % oth] if oth < len(p) else [])
            sel.append('  w%d: with a select w(%d) <= %s;' % (len(sel), len(sel), ', '.join(cs)))
            sref.append({v: i for i, g in enumerate(p) for v in g})
    d = '''entity t is end entity;
architecture x of t is
  type tfile is file of integer;
  type iv is array (natural range <>) of integer;
  subtype three is integer range 0 to 2;
  signal a, b : three;
  signal s, u : iv(0 to %d) := (others => 7);
  signal w : iv(0 to %d) := (others => 7);
begin
%s
%s
  p: process
    file o : tfile open write_mode is "o.bin";
    variable v : iv(0 to %d) := (others => 7);
  begin
    for i in 0 to 26 loop
      a <= i mod 3; b <= (i / 3 + i / 9) mod 3;
      wait for 1 ns;
%s
      for k in v'range loop write(o, s(k)); write(o, u(k)); write(o, v(k)); end loop;
      for k in w'range loop write(o, w(k)); end loop;
    end loop;
    wait;
  end process;
end architecture;
''' % (n - 1, len(sel) - 1, '\n'.join(sig), '\n'.join(sel), n - 1, '\n'.join(var))
    exp, what = [], []
    # concurrent statements run once at time zero with a = b = 0 and so once more than v
    st = [r(0, 0, 7) for r in ref]
    vt = [7] * n
    for i in range(27):
        a, b = i % 3, (i // 3 + i // 9) % 3
        for k in range(n):
            st[k] = ref[k](a, b, st[k])
            vt[k] = ref[k](a, b, vt[k])
            exp += [st[k], st[k], vt[k]]
            what += ['%s: %s, a=%d b=%d' % (q, forms[k], a, b) for q in ('concurrent', 'process', 'variable')]
        for k in range(len(sel)):
            exp.append(sref[k][a])
            what.append('%s a=%d' % (sel[k].strip(), a))
    return d, exp, what


def chains(thorough):
    """Conditional expressions: arms (condition, result or unaffected) and the last else, if any."""
    arms = list(itertools.product(('a', 'b', 'true', 'false'), (True, False)))
    for n in (1, 2, 3):
        for ch in itertools.product(arms, repeat=n):
            for tail in (None, True, False):
                if n == 3 and not thorough and (tail is None) != (ch[0][0] == 'a') and ch[1][0] not in ('true', 'false'):
                    continue
                yield ch, tail


def chain_expect(ch, tail, a, b, old):
    for i, (cnd, val) in enumerate(ch):
        if {'a': a, 'b': b, 'true': True, 'false': False}[cnd]:
            return i + 1 if val else old
    return 9 if tail else old


def chain_design(items, unaff):
    sig, fn, body, exp, what = [], [], [], [], []
    for k, (ch, tail) in enumerate(items):
        e = ' else '.join('%s when %s' % (i + 1 if v else 'unaffected', cnd) for i, (cnd, v) in enumerate(ch))
        if tail is not None:
            e += ' else %s' % ('9' if tail else 'unaffected')
        txt = e
        fn.append('    v(%d) := %s;' % (k, e))
        fn.append('    fs(%d) <= force %s;' % (k, e))
        fn.append('    ss(%d) <= %s;' % (k, e))
        body.append(txt)
    funs = '\n'.join('  function f%d(a, b : boolean) return integer is begin\n    return %s;\n    return 7;\n  end function;' % (k, e) for k, e in enumerate(body)) if unaff else ''
    conc = '\n'.join('  c%d: cs(%d) <= %s;' % (k, k, e) for k, e in enumerate(body))
    n = len(items)
    call = '\n'.join('      write(o, %s);' % ('f%d(a, b)' % k) for k in range(n)) if unaff else ''
    d = '''entity t is end entity;
architecture x of t is
  type tfile is file of integer;
  type iv is array (natural range <>) of integer;
  signal fs, ss, cs : iv(0 to %d) := (others => 7);
  signal a, b : boolean;
%s
begin
%s
  p: process
    file o : tfile open write_mode is "o.bin";
    variable v : iv(0 to %d) := (others => 7);
    variable x : integer;
  begin
    for i in 0 to 4 loop
    a <= i mod 2 = 1; b <= (i / 2) mod 2 = 1;
    wait for 1 ns;
%s
    wait for 1 ns;
    for k in v'range loop write(o, v(k)); write(o, fs(k)); write(o, ss(k)); write(o, cs(k)); end loop;
%s
    end loop;
    wait;
  end process;
end architecture;
''' % (n - 1, funs, conc, n - 1, '\n'.join(fn), call)
    st = [7] * n
    cc = [chain_expect(ch, tail, False, False, 7) for ch, tail in items]
    for i in range(5):
        a, b = bool(i % 2), bool(i // 2 % 2)
        for k, (ch, tail) in enumerate(items):
            st[k] = chain_expect(ch, tail, a, b, st[k])
            cc[k] = chain_expect(ch, tail, a, b, cc[k])
            exp += [st[k], st[k], st[k], cc[k]]
            what += ['%s assignment of %s, a=%s b=%s' % (q, body[k], a, b) for q in ('variable', 'force', 'signal', 'concurrent')]
        if unaff:
            for k, (ch, tail) in enumerate(items):
                exp.append(chain_expect(ch, tail, a, b, 7))
                what.append('return %s, a=%s b=%s' % (body[k], a, b))
    return d, exp, what


def coverage_layouts(thorough):
    """Lists of choices, legal exactly if they cover the domain once."""
    rs = [(l, h) for l in range(4) for h in range(l, 4)] + [(2, 1)]
    out = []
    for k in (1, 2, 3) + ((4,) if thorough else ()):
        for ch in itertools.product(rs, repeat=k):
            for oth in (False, True):
                if k == 4 and oth:
                    continue
                vals = [v for l, h in ch for v in range(l, h + 1)]
                ok = len(set(vals)) == len(vals) and (oth or len(vals) == 4)
                out.append(('int', ch, oth, ok))
                if k < 3:
                    out.append(('enum', ch, oth, ok))
    for k in (1, 2, 3, 4, 5):
        for ch in itertools.product(range(4), repeat=k):
            for oth in (False, True):
                if k == 5 and (oth or not thorough):
                    continue
                out.append(('bv', ch, oth, len(set(ch)) == k and (oth or k == 4)))
    return out


def coverage_design(items):
    lines = ['entity t is end entity;', 'architecture a of t is', '  type color is (c0, c1, c2, c3);', 'begin']
    at = []
    for k, (ty, ch, oth, ok) in enumerate(items):
        lit = {'int': str, 'enum': lambda v: 'c%d' % v, 'bv': lambda v: '"%s"' % format(v, '02b')}[ty]
        cs = [lit(x) if ty == 'bv' else lit(x[0]) if x[0] == x[1] and (k + x[0]) % 2 else '%s to %s' % (lit(x[0]), lit(x[1])) if k % 3 else '%s downto %s' % (lit(x[1]), lit(x[0])) for x in ch]
        alts = cs if k % 2 else [' | '.join(cs)]
        lines.append('  p%d: process is variable x : %s; begin case x is %s end case; wait; end process;' % (
            k, {'int': 'integer range 0 to 3', 'enum': 'color', 'bv': 'bit_vector(1 downto 0)'}[ty], ' '.join('when %s => null;' % a for a in alts + (['others'] if oth else []))))
        at.append(len(lines))
    return '\n'.join(lines + ['end architecture;', '']), at


def main():
    c = vf.Check('P11', 'model_checking')
    c.build()
    jobs = []
    progs = list(programs(c.thorough))
    N = 250
    for i in range(0, len(progs), N):
        ch = progs[i:i + N]
        jobs.append(('prog%d' % (i // N), '2008', lambda ch=ch: (program_design(ch), [expect(s) for s in ch], [text(s, 0) for s in ch])))
    lays = list(case_layouts(c.thorough))
    if not c.thorough:
        lays = [x for i, x in enumerate(lays) if i % 4 == 0 or x[0] in ('bv70', 'bv64', 'str9', 'int')]
    for i in range(0, len(lays), N):
        ch = lays[i:i + N]

        def cd(ch=ch):
            d, e = case_design(ch)
            w = []
            for x in ch:
                for v in range(x[3]):
                    w += ['case on %s, selector %d: %s' % (x[1], v, '; '.join('%s => %s' % a for a in x[4]))] * 2
            return d, e, w
        jobs.append(('case%d' % (i // N), '2008', cd))
    mi = mcase_items()
    for i in range(0, len(mi), 60):
        ch = mi[i:i + 60]

        def md(ch=ch):
            d, e = mcase_design(ch)
            w = []
            for n, sel in ch:
                for p in itertools.product('UX01ZWLH', repeat=n):
                    w += ['case? %s of %s' % (''.join(p), sel)] * 2
            return d, e, w
        jobs.append(('mcase%d' % (i // 60), '2008', md))
    jobs.append(('conc', '2008', conc_design))
    chs = list(chains(c.thorough))
    old = [x for x in chs if all(v for _, v in x[0]) and x[1] is not False]
    for i in range(0, len(old), 150):
        jobs.append(('chain08-%d' % i, '2008', lambda x=old[i:i + 150]: chain_design(x, False)))
    for i in range(0, len(chs), 150):
        jobs.append(('chain19-%d' % i, '2019', lambda x=chs[i:i + 150]: chain_design(x, True)))
    c.log('%d programs, %d case layouts, %d matching cases' % (len(progs), len(lays), len(mi)))
    modes = ('jit', 'aot')

    def one(job):
        name, std, f = job
        d, exp, what = f()
        bad, n = [], 0
        for m in modes:
            if m == 'aot' and (name.startswith('mcase') or (not c.thorough and name.startswith('chain')) or (not c.thorough and name.startswith('prog') and int(name.lstrip('prog')) % 3)):
                continue
            w = c.dir(name + '-' + m)
            open(w + '/t.vhd', 'w').write(d)
            r = c.nvc(['-a', 't.vhd', '-e'] + (['--jit', '--no-save'] if m == 'jit' else []) + ['t', '-r'], w, std=std, timeout=400)
            o = open(w + '/o.bin', 'rb').read() if os.path.exists(w + '/o.bin') else b''
            k = 8 if std == '2019' else 4   # the size of INTEGER
            got = struct.unpack('<%d%s' % (len(o) // k, 'q' if k == 8 else 'i'), o[:len(o) // k * k])
            if r.rc or len(got) != len(exp):
                bad.append(('run', '%s (%s): exit status %s, %d of %d results\n%s' % (name, m, r.rc, len(got), len(exp), r.out[:1500]), d))
            for g, x, q in zip(got, exp, what):
                if g != x:
                    bad.append(('result', '%s (%s): expected %d got %d: %s' % (name, m, x, g, q), d))
                    if len(bad) > 10:
                        break
            n += len(exp)
            shutil.rmtree(w, ignore_errors=True)
        return n, bad
    total = 0
    cov = coverage_layouts(c.thorough)

    def covjob(i):
        items = cov[i:i + 400]
        w = c.dir('cov%d' % i)
        d, at = coverage_design(items)
        open(w + '/t.vhd', 'w').write(d)
        r = c.nvc(['-a', '--error-limit=0', 't.vhd'], w, timeout=200)
        err = set(int(x) for x in re.findall(r't\.vhd:(\d+)', r.out))
        bad = []
        for (ty, ch, oth, ok), l in zip(items, at):
            if ok == (l in err):
                bad.append(('layout', 'case over %s with choices %s%s is %s' % (ty, ch, ' and others' if oth else '', 'rejected although the choices cover every value once' if ok else 'accepted although the choices do not cover every value exactly once'),
                            d.split('\n')[l - 1]))
        if r.rc not in (0, 1) or not bad and r.rc != (1 if any(not x[3] for x in items) else 0):
            bad.append(('layout-exit', 'exit status %s: %s' % (r.rc, r.out[-500:]), d))
        return len(items), bad
    for n, bad in c.pmap(covjob, range(0, len(cov), 400)):
        total += n
        for k, t, d in bad:
            c.violation(k, t, {'t.vhd': d})
    for n, bad in c.pmap(one, jobs):
        total += n
        for k, t, d in bad:
            c.violation(k, t, {'t.vhd': d})
    c.finish({'states': total, 'transitions': total, 'traces_validated_against_impl': total, 'programs': len(progs), 'case_layouts': len(lays), 'matching_case_layouts': len(mi), 'coverage_layouts': len(cov), 'conditional_chains': len(chs), 'exhaustive': True,
              'samples': [text(progs[i], 0) for i in range(0, len(progs), len(progs) // 4)]})


if __name__ == '__main__':
    vf.main(main)
