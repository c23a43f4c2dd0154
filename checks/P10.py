#!/usr/bin/env python3
"""P10: IEEE packages compute the standard-defined functions.

All operand pairs up to a width over 0/1, all nine-value operands of small
widths and wide operands of every length around the chunk sizes of the native
substitutes (with every kind of metavalue at the ends) are pushed through the
functions of std_logic_1164, numeric_std, numeric_bit, std_logic_arith and
math_real.  Each design runs with the native substitutes off, on without vector
instructions and on with them; each result is compared with a definition
written here, and bounds and messages are compared between the three runs."""
import os, sys, itertools, math, re, shutil, multiprocessing
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

STD = 'UX01ZWLH-'
X01 = dict(zip(STD, 'XX01XX01X'))
UX01 = dict(zip(STD, 'UX01XX01X'))
X01Z = dict(zip(STD, 'XX01ZX01X'))


def a_and(a, b):
    a, b = UX01[a], UX01[b]
    return '0' if '0' in (a, b) else 'U' if 'U' in (a, b) else 'X' if 'X' in (a, b) else '1'


def a_or(a, b):
    a, b = UX01[a], UX01[b]
    return '1' if '1' in (a, b) else 'U' if 'U' in (a, b) else 'X' if 'X' in (a, b) else '0'


def a_xor(a, b):
    a, b = UX01[a], UX01[b]
    return 'U' if 'U' in (a, b) else 'X' if 'X' in (a, b) else '01'[a != b]


def a_not(a):
    return {'0': '1', '1': '0'}.get(UX01[a], UX01[a])


def nota(f):
    return lambda a, b: a_not(f(a, b))


BIN = {'and': a_and, 'or': a_or, 'xor': a_xor, 'nand': nota(a_and), 'nor': nota(a_or), 'xnor': nota(a_xor)}


def v1(f):
    return lambda l, r: None if len(l) != len(r) else ''.join(map(f, l, r))


# -- numbers
def bits(s):
    s = ''.join(X01[c] for c in s)
    return None if 'X' in s else s


def num(s, sg):
    """None when there is a metavalue."""
    b = bits(s)
    if b is None:
        return None
    n = int(b, 2) if b else 0
    return n - (1 << len(b)) if sg and b and b[0] == '1' else n


def vec(n, w):
    return '' if w < 1 else format(n % (1 << w), '0%db' % w)


def arith(op, sg, width):
    def f(l, r):
        if not l or not r:
            return ''
        w = width(len(l), len(r))
        a, b = num(l, sg), num(r, sg)
        if a is None or b is None:
            return 'X' * w
        if sg and 'H' in (l[0], r[0]) and width in (DIVW, MODW):
            return None          # the package source looks for a sign of '1'
        x = op(a, b, w)
        return None if x is None else vec(x, w)
    return f


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


MAXW = max
DIVW = lambda l, r: l
MODW = lambda l, r: r
OPS = {'+': (lambda a, b, w: a + b, max), '-': (lambda a, b, w: a - b, max), '*': (lambda a, b, w: a * b, lambda l, r: l + r),
       '/': (lambda a, b, w: None if b == 0 else tdiv(a, b), DIVW), 'rem': (lambda a, b, w: None if b == 0 else a - b * tdiv(a, b), MODW),
       'mod': (lambda a, b, w: None if b == 0 else a - b * (a // b), MODW)}
REL = {'<': lambda a, b: a < b, '>': lambda a, b: a > b, '<=': lambda a, b: a <= b, '>=': lambda a, b: a >= b, '=': lambda a, b: a == b, '/=': lambda a, b: a != b}


def rel(op, sg):
    def f(l, r):
        a, b = num(l, sg), num(r, sg)
        if not l or not r or a is None or b is None:
            return 'T' if op == '/=' else 'F'
        return 'FT'[REL[op](a, b)]
    return f


def mrel(op, sg):
    def f(l, r):
        if not l or not r:
            return 'X'
        if op in ('=', '/='):
            def eq(a, b):
                if '-' in (a, b):
                    return '1'
                if 'U' in (a, b):
                    return 'U'
                a, b = X01[a], X01[b]
                return 'X' if 'X' in (a, b) else '01'[a == b]
            n = max(len(l), len(r))
            ext = lambda s: (s[0] if sg else '0') * (n - len(s)) + s
            # the package source defines that U dominates X, and X a mismatch
            e = [eq(p, q) for p, q in zip(ext(l), ext(r))]
            x = 'U' if 'U' in e else 'X' if 'X' in e else '0' if '0' in e else '1'
            return x if op == '=' else a_not(x)
        a, b = num(l, sg), num(r, sg)
        if '-' in l + r:
            return 'X'
        if a is None or b is None:
            return 'X'
        return '01'[REL[op](a, b)]
    return f


def resize(s, n, sg):
    if n < 1:
        return ''
    if not s:
        return '0' * n
    if not sg:
        return ('0' * n + s)[-n:]
    if n >= len(s):
        return s[0] * (n - len(s)) + s
    return s[0] + (s[-(n - 1):] if n > 1 else '')


def to01(s, m):
    b = bits(s)
    return b if b is not None else m * len(s)


def shift(s, k, left, fill):
    n = len(s)
    k = min(k, n)
    if n == 0:
        return ''
    return s[k:] + fill * k if left else fill * k + s[:n - k]


def rot(s, k):
    if not s:
        return ''
    k %= len(s)
    return s[k:] + s[:k]


def minmax(f, sg):
    def g(l, r):
        if not l or not r:
            return ''
        n = max(len(l), len(r))
        a, b = num(l, sg), num(r, sg)
        if a is None or b is None:
            return 'X' * n
        return vec(f(a, b), n)
    return g


def std_match(l, r):
    if not l or not r or len(l) != len(r):
        return 'F'
    for a, b in zip(l, r):
        if '-' in (a, b):
            continue
        a, b = X01[a], X01[b]
        if a == 'X' or b == 'X' or a != b:
            return 'F'
    return 'T'


# A family: (vhdl text of the operations, python list of expected lines per pair)
def family(name, std):
    """-> list of (expr, result kind, reference function or None)"""
    ops = []
    sg = name.startswith('s')
    if name in ('unsigned', 'signed', 'ubit', 'sbit'):
        for o, (f, w) in OPS.items():
            ops.append(('l %s r' % o, 'v', arith(f, sg, w), o in ('/', 'rem', 'mod')))
        for o in REL:
            ops.append(('l %s r' % o, 'b', rel(o, sg), False))
        if std != '1993':
            for o in REL:
                if name in ('unsigned', 'signed'):
                    ops.append(('l ?%s r' % o, 'l', None if o not in ('=', '/=') else mrel(o, sg), False))
            ops.append(('minimum(l, r)', 'v', minmax(min, sg), False))
            ops.append(('maximum(l, r)', 'v', minmax(max, sg), False))
        if 'bit' not in name:
            ops.append(('std_match(l, r)', 'b', std_match, False))
    elif name.startswith(('u_', 's_')):
        n01 = lambda f: lambda l, r: f(l, r) if not (set(l) | set(r)) - set('01') else None
        for o in '+-*':
            f, w = OPS[o]
            if name.endswith('arith'):
                ops.append(('l %s r' % o, 'v', n01(arith(f, sg, w)), False))
                ops.append(('l %s r' % o, 'w', n01(arith(f, sg, w)), False))
            else:
                ops.append(('l %s r' % o, 'v', n01(arith(f, sg, w)), False))
        for o in REL:
            ops.append(('l %s r' % o, 'b', n01(rel(o, sg)), False))
    elif name == 'logic':
        for o in BIN:
            if True:
                ops.append(('l %s r' % o, 'v', v1(BIN[o]), 'len'))
        ops.append(('l = r', 'b', lambda l, r: 'FT'[l == r], False))
        ops.append(('l /= r', 'b', lambda l, r: 'FT'[l != r], False))
        ops.append(('l < r', 'b', lambda l, r: 'FT'[[STD.index(c) for c in l] < [STD.index(c) for c in r]], False))
        ops.append(('l >= r', 'b', lambda l, r: 'FT'[[STD.index(c) for c in l] >= [STD.index(c) for c in r]], False))
        ops.append(('l & r', 'v', lambda l, r: l + r, False))
    return ops


def unary(name, std):
    sg = name.startswith('s')
    ops = []
    if name in ('unsigned', 'signed'):
        for k in (0, 1, 2, 3, 7, 8, 9, 15, 16, 17, 33):
            ops.append(('resize(l, %d)' % k, 'v', lambda l, k=k: resize(l, k, sg)))
        ops.append(('to_01(l)', 'v', lambda l: to01(l, '0')))
        ops.append(("to_01(l, 'X')", 'v', lambda l: to01(l, 'X')))
        ops.append(("to_01(l, '1')", 'v', lambda l: to01(l, '1')))
        for k in (0, 1, 2, 5, 8, 17):
            ops.append(('shift_left(l, %d)' % k, 'v', lambda l, k=k: shift(l, k, True, '0')))
            ops.append(('shift_right(l, %d)' % k, 'v', lambda l, k=k: shift(l, k, False, l[0] if sg and l else '0')))
            ops.append(('rotate_left(l, %d)' % k, 'v', lambda l, k=k: rot(l, k)))
            ops.append(('rotate_right(l, %d)' % k, 'v', lambda l, k=k: rot(l, -k)))
            ops.append(('l sll %d' % k, 'v', lambda l, k=k: shift(l, k, True, '0')))
            ops.append(('l srl (-%d)' % k, 'v', lambda l, k=k: shift(l, k, True, '0')))
            ops.append(('l ror %d' % k, 'v', lambda l, k=k: rot(l, -k)))
        for k in (0, 1, 2, 3, 5, 127, 128, 255, 256, 65535, 65536, 2147483647):
            for o in ('+', '-', '*', '<', '=', '/=', '>='):
                for side in (0, 1):
                    e = ('l %s %d' if side == 0 else '%d %s l') % ((o, k) if side == 0 else (k, o))
                    if o == '*':
                        f = lambda l, k=k: '' if not l else 'X' * 2 * len(l) if num(l, sg) is None else vec(num(l, sg) * num(vec(k, len(l)), sg), 2 * len(l))
                        ops.append((e, 'v', f))
                    elif o in '+-':
                        f = lambda l, k=k, o=o, side=side: '' if not l else 'X' * len(l) if num(l, sg) is None else vec(num(l, sg) + k if o == '+' else num(l, sg) - k if side == 0 else k - num(l, sg), len(l))
                        ops.append((e, 'v', f))
                    else:
                        def f(l, k=k, o=o, side=side):
                            n = num(l, sg)
                            if not l or n is None:
                                return 'T' if o == '/=' else 'F'
                            return 'FT'[REL[o](n, k) if side == 0 else REL[o](k, n)]
                        ops.append((e, 'b', f))
        for k in (1, 3, 200):
            for o in ('/', 'mod', 'rem'):
                ops.append(('l %s %d' % (o, k), 'v', None))
        if sg:
            for k in (-1, -2, -128, -129, -65536):
                ops.append(('l + (%d)' % k, 'v', lambda l, k=k: '' if not l else 'X' * len(l) if num(l, sg) is None else vec(num(l, sg) + k, len(l))))
                ops.append(('l < (%d)' % k, 'b', lambda l, k=k: 'F' if not l or num(l, sg) is None else 'FT'[num(l, sg) < k]))
            ops.append(('abs l', 'v', lambda l: '' if not l else 'X' * len(l) if num(l, sg) is None else vec(abs(num(l, sg)), len(l))))
            ops.append(('-l', 'v', lambda l: '' if not l else 'X' * len(l) if num(l, sg) is None else vec(-num(l, sg), len(l))))
        ops.append(('not l', 'v', lambda l: ''.join(map(a_not, l))))
        ops.append(('to_int(l)', 'i', lambda l: '0' if not l or num(l, sg) is None else '-' if abs(num(l, sg)) >= 1 << 30 else str(num(l, sg))))
    elif name.startswith(('u_', 's_')):
        n01 = lambda f: lambda l: f(l) if not set(l) - set('01') else None
        for x in STD:
            for o in '+-':
                b = 1 if x in '1H' else 0
                f = n01(lambda l, o=o, b=b: vec(num(l, sg) + (b if o == '+' else -b), len(l))) if x in '01' else None
                ops.append(("l %s std_ulogic'('%s')" % (o, x), 'v', f))
                ops.append(("std_ulogic'('%s') %s l" % (x, o), 'v', f if o == '+' else None))
        for k in (0, 1, 2, 5):
            f = n01(lambda l, k=k: vec(num(l, sg) + k, len(l)))
            ops.append(('l + %d' % k, 'v', f))
            ops.append(('%d + l' % k, 'v', f))
        if name.endswith('arith'):
            for k in (1, 2, 3, 7, 8, 9, 17):
                ops.append(('conv_%ssigned(l, %d)' % ('' if sg else 'un', k), 'v', n01(lambda l, k=k: vec(num(l, sg), k))))
                ops.append(('%s(ext(std_logic_vector(l), %d))' % (TY[name], k), 'v', n01(lambda l, k=k: vec(num(l, False), k))))
                ops.append(('%s(sxt(std_logic_vector(l), %d))' % (TY[name], k), 'v', n01(lambda l, k=k: vec(num(l, True), k))))
    elif name == 'logic':
        ops += [('to_x01(l)', 'v', lambda l: ''.join(X01[c] for c in l)), ('to_ux01(l)', 'v', lambda l: ''.join(UX01[c] for c in l)),
                ('to_x01z(l)', 'v', lambda l: ''.join(X01Z[c] for c in l)), ('not l', 'v', lambda l: ''.join(map(a_not, l))),
                ('is_x(l)', 'b', lambda l: 'FT'[any(X01[c] == 'X' for c in l)]),
                ('to_stdlogicvector(to_bitvector(l))', 'v', lambda l: ''.join('1' if c in '1H' else '0' for c in l)),
                ("to_stdlogicvector(to_bitvector(l, '1'))", 'v', lambda l: ''.join('0' if c in '0L' else '1' for c in l)),
                ('std_logic_vector(to_stdulogicvector(l))', 'v', lambda l: l)]
        if std != '1993':
            def red(f, e, inv=False):
                def g(l):
                    x = e
                    for c in reversed(l):
                        x = f(x, c)
                    return a_not(x) if inv else x
                return g
            for o, e in (('and', '1'), ('or', '0'), ('xor', '0')):
                ops.append(('%s l' % o, 'l', red(BIN[o], e)))
                ops.append(('%s l' % {'and': 'nand', 'or': 'nor', 'xor': 'xnor'}[o], 'l', red(BIN[o], e, True)))
            for k in (0, 1, 3, 9, 16):
                ops.append(('l sll %d' % k, 'v', lambda l, k=k: shift(l, k, True, '0')))
                ops.append(('l rol %d' % k, 'v', lambda l, k=k: rot(l, k)))
                ops.append(('l srl %d' % k, 'v', lambda l, k=k: shift(l, k, False, '0')))
            for s in STD:
                for o in ('and', 'or', 'xor', 'nand'):
                    ops.append(("l %s std_ulogic'('%s')" % (o, s), 'v', lambda l, o=o, s=s: ''.join(BIN[o](c, s) for c in l)))
    return ops


def operands(meta, wmax, wide):
    """All 0/1 vectors up to wmax, all nine-value vectors up to meta, and wide patterns."""
    out = ['']
    for w in range(1, wmax + 1):
        out += [''.join(p) for p in itertools.product('01', repeat=w)]
    for w in range(1, meta + 1):
        out += [s for s in (''.join(p) for p in itertools.product(STD, repeat=w)) if set(s) - set('01')]
    for w in wide:
        pats = ['0' * w, '1' * w, '1' + '0' * (w - 1), '0' * (w - 1) + '1', ('01' * w)[:w], '1' + ('10' * w)[:w - 2] + '0']
        if meta:
            pats += ['H' * w, ('L1H0' * w)[:w], 'X' + '1' * (w - 1), '1' * (w - 1) + 'Z', '0' * (w // 2) + 'U' + '0' * (w - w // 2 - 1), (STD * w)[:w]]
        out += pats
    seen = set()
    return [x for x in out if not (x in seen or seen.add(x))]


EMIT = {'v': "e({t}'({x}));", 'b': "e(boolean'({x}));", 'l': "e(std_ulogic'({x}));", 'i': "e(integer'({x}));", 'w': "e({t}(std_logic_vector'({x})));"}
TY = {'unsigned': 'unsigned', 'signed': 'signed', 'logic': 'std_logic_vector', 'ubit': 'unsigned', 'sbit': 'signed',
      'u_arith': 'unsigned', 's_arith': 'signed', 'u_slv': 'std_logic_vector', 's_slv': 'std_logic_vector'}
PK = {'u_arith': 'arith', 's_arith': 'arith', 'u_slv': 'unsigned', 's_slv': 'signed'}


def header(name, std, extra=''):
    bit = 'bit' in name
    T = TY[name]
    el = 'bit' if bit else 'std_logic'
    return '''library ieee; use ieee.std_logic_1164.all; %s %s
entity t is end entity;
architecture a of t is
  type cfile is file of character;
  file f : cfile open write_mode is "o.txt";
  type map_t is array (%s) of character;
  constant MAP_C : map_t := %s;
  procedure put(s : string) is begin for i in s'range loop write(f, s(i)); end loop; end procedure;
  procedure e(v : %s) is
  begin
    for i in v'range loop write(f, MAP_C(v(i))); end loop;
    -- bounds
    put(" " & integer'image(v'left));
    if v'ascending then write(f, '+'); else write(f, '-'); end if;
    write(f, LF);
  end procedure;
  procedure e(b : boolean) is begin if b then put("T"); else put("F"); end if; write(f, LF); end procedure;
  %s
  procedure e(b : integer) is begin put(integer'image(b)); write(f, LF); end procedure;
  %s
''' % ('use ieee.numeric_bit.all;' if bit else 'use ieee.std_logic_%s.all;' % PK[name] if name in PK else 'use ieee.numeric_std.all;' if name != 'logic' else '', extra,
       'bit' if bit else 'std_ulogic', "('0', '1')" if bit else "('U', 'X', '0', '1', 'Z', 'W', 'L', 'H', '-')", T,
       'procedure e(b : std_ulogic) is begin write(f, MAP_C(b)); write(f, LF); end procedure;' if not bit else '',
       '''function to_int(l : %s) return integer is
  begin
    if l'length > 31 then
      if is_x(std_logic_vector(l)) then return to_integer(l); end if;
      %s
    end if;
    return to_integer(l);
  end function;''' % (T, '''if l >= to_signed(2**30, 40) or l <= to_signed(-(2**30), 40) then return integer'high; end if;''' if name == 'signed' else '''if l >= to_unsigned(2**30, 40) then return integer'high; end if;''')
       if name in ('unsigned', 'signed') else '')


def design(name, std, A, B, bops, uops):
    T = TY[name]
    o = header(name, std)
    allv = A if B is None else A + B
    pool = ''.join(allv)
    starts, k = [], 0
    for v in allv:
        starts.append(k)
        k += len(v)
    el = 'bit' if 'bit' in name else 'std_logic'
    chunks = ' &\n    '.join('"%s"' % pool[i:i + 100] for i in range(0, max(1, len(pool)), 100))
    o += '''  constant POOL : %s(0 to %d) := %s;
  constant DPOOL : %s(%d downto 0) := POOL;
  type ivec is array (natural range <>) of integer;
  constant START : ivec(0 to %d) := (%s, %d);
''' % (T, len(pool) - 1, chunks, T, len(pool) - 1, len(allv), ', '.join(map(str, starts)), k)
    if B is None:
        o += '  procedure u(l : %s) is\n  begin\n' % T
        for ex, kind, *_ in uops:
            x = EMIT[kind].format(t=T, x=ex)
            # the source of rol divides by the length
            o += '    if l\'length > 0 then %s else e(l(l\'range)); end if;\n' % x if ex.startswith('l rol') and name == 'logic' else '    %s\n' % x
        o += '''  end procedure;
begin
  process
  begin
    for i in 0 to %d loop
      if i mod 2 = 0 then u(POOL(START(i) to START(i + 1) - 1));
      else u(DPOOL(%d - START(i) downto %d - START(i + 1))); end if;
    end loop;
    wait;
  end process;
end architecture;
''' % (len(allv) - 1, len(pool) - 1, len(pool))
        return o
    o += '  procedure bb(l, r : %s; zero, same : boolean) is\n  begin\n' % T
    groups = {}
    for ex, kind, f, cond in bops:
        t = "    " + EMIT[kind].format(t=T, x=ex) + "\n"
        o += t if not cond else '    if not zero then\n' + t + '    end if;\n' if cond is True else "    if same then\n" + t + '    end if;\n'
    o += '''  end procedure;
  function zero(r : %s) return boolean is
  begin
    for i in r'range loop if r(i) /= '0'%s then return false; end if; end loop;
    return r'length > 0;
  end function;
begin
  process
    variable z : boolean;
  begin
    for i in 0 to %d loop
      for j in %d to %d loop
        z := zero(POOL(START(j) to START(j + 1) - 1));
        case (i + j) mod 4 is
          when 0 => bb(POOL(START(i) to START(i + 1) - 1), POOL(START(j) to START(j + 1) - 1), z, START(i + 1) - START(i) = START(j + 1) - START(j));
          when 1 => bb(DPOOL(%d - START(i) downto %d - START(i + 1)), POOL(START(j) to START(j + 1) - 1), z, START(i + 1) - START(i) = START(j + 1) - START(j));
          when 2 => bb(POOL(START(i) to START(i + 1) - 1), DPOOL(%d - START(j) downto %d - START(j + 1)), z, START(i + 1) - START(i) = START(j + 1) - START(j));
          when others => bb(DPOOL(%d - START(i) downto %d - START(i + 1)), DPOOL(%d - START(j) downto %d - START(j + 1)), z, START(i + 1) - START(i) = START(j + 1) - START(j));
        end case;
      end loop;
    end loop;
    wait;
  end process;
end architecture;
''' % (T, " and r(i) /= 'L'" if 'bit' not in name else '', len(A) - 1, len(A), len(allv) - 1, *([len(pool) - 1, len(pool)] * 4))
    return o


def expected(name, A, B, bops, uops):
    if B is None:
        for l in A:
            for ex, kind, f, *_ in uops:
                yield ex, l, '', f(l) if f else None
        return
    for l in A:
        for r in B:
            z = len(r) > 0 and all(c in '0L' for c in r)
            for ex, kind, f, cond in bops:
                if cond is True and z or cond == 'len' and len(l) != len(r):
                    continue
                yield ex, l, r, f(l, r) if f else None


CFG = [('vhdl', {'NVC_JIT_INTRINSICS': '0'}), ('native', {'NVC_VECTOR_INTRINSICS': '0'}), ('vector', {})]
C = None


def nvc(c, syn, args, d, std, **kw):
    if syn:
        libs, c.libs = c.libs, os.path.join(c.work, 'syn')
        r = c.nvc(args, d, std=std, **kw)
        c.libs = libs
        return r
    return c.nvc(args, d, std=std, **kw)


def synopsys(c):
    """A library directory with the std_logic_arith family analysed into ieee."""
    d = c.dir('syn')
    for x in os.listdir(c.libs):
        if x.startswith('ieee'):
            shutil.copytree(c.libs + '/' + x, d + '/' + x)
        else:
            os.symlink(c.libs + '/' + x, d + '/' + x)
    for std, lib in (('2008', 'ieee.08'), ('1993', 'ieee')):
        for f in ('arith', 'unsigned', 'signed'):
            src = os.path.join(c.src, 'lib/synopsys/std_logic_%s.vhd' % f)
            r = nvc(c, True, ['-a', src], d, std, work=d + '/' + lib)
            if r.rc != 0:
                c.violation('synopsys:' + f, 'std_logic_%s does not analyse: %s' % (f, r.out[-800:]))


def job(tk):
    k, (name, std, A, B) = tk
    c = C
    bops = family(name, std) if B is not None else []
    uops = unary(name, std) if B is None else []
    d = c.dir('t%d' % k)
    open(d + '/t.vhd', 'w').write(design(name, std, A, B, bops, uops))
    bad = []
    outs = []
    for cn, env in CFG:
        if 'bit' in name and cn != 'vector':
            continue
        r = nvc(c, name in PK, ['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r', '--ieee-warnings=off', '--exit-severity=failure'], d, std=std, timeout=600, env=env, pre=('-M', '512m'))
        if r.rc != 0 or r.timed_out:
            bad.append(('crash', '%s %s rc=%s %s' % (name, cn, r.rc, r.out[-800:])))
            return bad, 0, d
        outs.append((cn, open(d + '/o.txt').read().split('\n')))
    exp = list(expected(name, A, B, bops, uops))
    seen = set()
    for cn, lines in outs:
        if len(lines) != len(exp) + 1:
            bad.append(('count', '%s %s: %d results for %d calls' % (name, cn, len(lines) - 1, len(exp))))
            continue
        for (ex, l, r, x), got, base in zip(exp, lines, outs[0][1]):
            if x is not None and got.split(' ')[0] != x and not (x == '-' and ex.startswith('to_int')):
                key = ('value', ex)
                if key not in seen:
                    seen.add(key)
                    bad.append(('value:%s:%s:%s' % (name, cn, ex.replace(' ', '')), '%s (%s, VHDL-%s) %s with l="%s" r="%s": expected %s, got %s' % (name, cn, std, ex, l, r, x, got)))
            elif got != base and not (name in PK and got.split(' ')[0] == base.split(' ')[0]):
                key = ('bounds' if got.split(' ')[0] == base.split(' ')[0] else 'native', ex)
                if key not in seen:
                    seen.add(key)
                    bad.append(('%s:%s:%s:%s' % (key[0], name, cn, ex.replace(' ', '')), '%s (VHDL-%s) %s with l="%s" r="%s": VHDL source gives %s, %s substitute gives %s' % (name, std, ex, l, r, base, cn, got)))
    if not bad:
        shutil.rmtree(d)
    return bad, len(exp) * len(outs), d


REALS = [0.0, 1.0, -1.0, 0.5, -0.5, 1.5, -1.5, 2.5, -2.5, 0.25, 3.0, 7.99, -7.99, 10.0, 100.0, 1e-9, 123456.75, -123456.75, 2147483647.0, -2147483648.0, 1e9]


def real_design():
    lits = ', '.join(repr(v) if 'e' not in repr(v) else '%.25f' % v for v in REALS)
    F1 = ['round', 'trunc', 'floor', 'ceil', 'sin', 'cos', 'exp', 'log', 'log2', 'log10', 'sign', 'sqrt']
    o = '''library ieee; use ieee.math_real.all;
entity t is end entity;
architecture a of t is
  type rv is array (natural range <>) of real;
  type rf is file of real;
  file f : rf open write_mode is "o.bin";
  constant V : rv := (%s);
begin
  process
    procedure put(x : real) is begin write(f, x); end procedure;
  begin
    for i in V'range loop
''' % lits
    for fn in F1:
        o += '      put(%s(V(i)));\n' % fn if fn not in ('exp', 'sqrt', 'log', 'log2', 'log10') else \
            '      if %s then put(%s(V(i))); end if;\n' % ('V(i) < 600.0' if fn == 'exp' else 'V(i) >= 0.0' if fn == 'sqrt' else 'true', fn)
    o += '''      for j in V'range loop
        if abs(V(j)) < 20.0 and abs(V(i)) < 1.0e6 then
          put(V(i) ** V(j));
          put(integer(trunc(V(i))) ** V(j));
        end if;
        put(realmax(V(i), V(j)));
        if V(j) /= 0.0 and V(j) > 1.0e-3 and abs(V(i)) < 1.0e6 then put(V(i) mod V(j)); end if;
      end loop;
    end loop;
    wait;
  end process;
end architecture;
'''
    exp = []
    LOW = -sys.float_info.max

    def cdiv(a):
        return math.floor(abs(a) + 0.5) * (1 if a > 0 else -1)

    def pw(x, y):
        if x < 0 and y != 0 or x == 0 and y <= 0:
            return 0.0
        try:
            return x ** y
        except OverflowError:
            return None
    for x in REALS:
        exp += [('round', x, cdiv(x), True), ('trunc', x, math.trunc(x), True), ('floor', x, math.floor(x), True), ('ceil', x, math.ceil(x), True),
                ('sin', x, math.sin(x) if abs(x) < 1000 else None, False), ('cos', x, math.cos(x) if abs(x) < 1000 else None, False)]
        if x < 600.0:
            exp.append(('exp', x, math.exp(x), False))
        for n, fn in (('log', math.log), ('log2', math.log2), ('log10', math.log10)):
            exp.append((n, x, fn(x) if x > 0 else LOW, False))
        exp.append(('sign', x, (x > 0) - (x < 0), True))
        if x >= 0:
            exp.append(('sqrt', x, math.sqrt(x), False))
        for y in REALS:
            if abs(y) < 20 and abs(x) < 1e6:
                exp.append(('**', (x, y), pw(x, y), False))
                exp.append(('**int', (math.trunc(x), y), pw(float(math.trunc(x)), y), False))
            exp.append(('realmax', (x, y), max(x, y), True))
            if y != 0 and y > 1e-3 and abs(x) < 1e6:
                exp.append(('mod', (x, y), None, False))
    return o, exp


def special(c):
    """math_real, errors of the vector operators, and results that alias arguments."""
    import struct
    n = 0
    src, exp = real_design()
    d = c.dir('real')
    open(d + '/t.vhd', 'w').write(src)
    msgs = None
    for cn, env in CFG:
        r = c.nvc(['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r', '--exit-severity=failure'], d, env=env)
        b = open(d + '/o.bin', 'rb').read() if os.path.exists(d + '/o.bin') else b''
        v = struct.unpack('<%dd' % (len(b) // 8), b)
        if r.rc != 0 or len(v) != len(exp):
            c.violation('math:crash:' + cn, 'math_real %s: rc=%d, %d of %d results; %s' % (cn, r.rc, len(v), len(exp), r.out[-600:]), {'t.vhd': src})
            continue
        n += len(v)
        m = [re.sub(r'^\S*', '', l) for l in r.out.split('\n') if 'Error' in l]
        if msgs is None:
            msgs = m
        elif m != msgs:
            c.violation('math:errors:' + cn, 'math_real %s: reports %d errors, the package source %d' % (cn, len(m), len(msgs)), {'t.vhd': src})
        for (fn, x, e, exact), got in zip(exp, v):
            if e is None or cn == 'vhdl' and isinstance(x, float) and abs(x) > 2e9:
                continue
            if fn in ('log', 'log2', 'log10', '**', '**int', 'sin', 'cos', 'exp', 'sqrt') and not exact:
                ok = abs(got - e) <= (1e-6 if cn == 'vhdl' else 1e-12) * max(1e-3, abs(e)) or got == e
            else:
                ok = got == e
            if not ok:
                c.violation('math:%s:%s' % (cn, fn), 'math_real (%s) %s%s: expected %r, got %r' % (cn, fn, x, e, got), {'t.vhd': src})
                break
    # calls that must fail, the same in all three configurations
    calls = []
    for o in ('and', 'or', 'xor', 'nand', 'nor', 'xnor'):
        for a, b in (('"01"', '"0"'), ('""', '"1"'), ('"00000000000000001"', '"0000000000000000"')):
            calls.append(('std_logic_vector', 'x := sx(%s) %s sx(%s);' % (a, o, b)))
    for o in ('/', 'mod', 'rem'):
        for w in ('"0"', '"00000000"', '"L0"'):
            calls.append(('unsigned', 'x := ux("101") %s ux(%s);' % (o, w)))
            calls.append(('signed', 'x := ix("101") %s ix(%s);' % (o, w)))
    calls += [('unsigned', 'x := to_unsigned(n, 8);'), ('unsigned', 'x := ux("101") + n;'), ('unsigned', 'x := n + ux("101");'), ('unsigned', 'x := resize(ux("101"), n);')]
    jobs = [(k, ty, st, cn, env) for k, (ty, st) in enumerate(calls) for cn, env in CFG]

    def one(j):
        k, ty, st, cn, env = j
        d = c.dir('e%d%s' % (k, cn))
        open(d + '/t.vhd', 'w').write('''library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;
entity t is end entity;
architecture a of t is
  signal n : integer := -1;
  function sx(s : std_logic_vector) return std_logic_vector is begin return s; end function;
  function ux(s : unsigned) return unsigned is begin return s; end function;
  function ix(s : signed) return signed is begin return s; end function;
begin
  process
    procedure go is variable x : %s(0 to 63); begin %s end procedure;
  begin
    go; report "no error"; wait;
  end process;
end architecture;
''' % (ty, st))
        r = c.nvc(['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r'], d, env=env)
        first = [l for l in r.out.split('\n') if '**' in l][:1]
        return r.rc, (first or [''])[0].split(':', 2)[-1].strip(), r.out
    res = c.pmap(one, jobs)
    n += len(jobs)
    for i in range(0, len(jobs), 3):
        st = jobs[i][2]
        for (rc, first, out), j in zip(res[i:i + 3], jobs[i:i + 3]):
            if rc != 1 or 'no error' in out or 'Caught' in out:
                c.violation('error:%s:%s' % (j[3], st), '%s (%s): expected an error, exit status %d: %s' % (st, j[3], rc, out[-500:]))
    return n


def main():
    global C
    c = C = vf.Check('P10', 'model_checking')
    c.build()
    th = c.thorough
    tasks = []
    wide = (7, 8, 9, 15, 16, 17, 31, 33, 65) if not th else (6, 7, 8, 9, 10, 15, 16, 17, 18, 23, 24, 25, 31, 32, 33, 47, 48, 49, 63, 64, 65, 66, 127, 129)

    def split(name, std, A, B, n):
        s = (len(A) + n - 1) // n
        for i in range(0, len(A), s):
            tasks.append((name, std, A[i:i + s], B))
    for std in ('2008', '1993'):
        for name in ('unsigned', 'signed'):
            o = operands(0, 5 if std == '2008' or th else 3, ())
            split(name, std, o, o, 2)
            m = operands(2, 0, ())
            if std == '2008' or th:
                split(name, std, m, m, 2)
            w = operands(1, 1, wide)
            split(name, std, w, w, 4)
            split(name, std, operands(3 if std == '2008' else 2, 6, wide), None, 1 if not th else 2)
        m = operands(2, 0, ())
        split('logic', std, m, m, 1)
        w = operands(1, 1, range(3, 36) if not th else range(3, 70))
        split('logic', std, w, w, 4)
        split('logic', std, operands(4 if th else 3, 2, wide), None, 1)
        for name in ('ubit', 'sbit'):
            o = operands(0, 5 if th else 4, (8, 9, 17, 33))
            split(name, std, o, o, 1)
    synopsys(c)
    for std in ('2008', '1993'):
        for name in PK:
            a = operands(0, 4, ())[1:]
            b = operands(1, 1, wide)[1:]
            if name.endswith('arith') or std == '2008':
                split(name, std, a, a, 1)
                split(name, std, b, b, 2 if std == '2008' else 1)
                split(name, std, operands(2, 5, wide)[1:], None, 1)
    only = os.environ.get('P10_ONLY')
    if only:
        tasks = [t for t in tasks if re.match(only, t[0])]
    c.log('%d designs' % len(tasks))
    with multiprocessing.get_context('fork').Pool(vf.JOBS) as pool:
        res = pool.map(job, list(enumerate(tasks)), 1)
    total = special(c)
    reported = set()
    for (bad, n, d) in res:
        total += n
        for key, text in bad:
            if key not in reported:
                reported.add(key)
                c.violation(key, text, {'t.vhd': ('copy', d + '/t.vhd')})
    c.finish({'states': total, 'transitions': total, 'traces_validated_against_impl': total, 'evaluations': total, 'designs': len(tasks), 'exhaustive': True},
             ['the VHDL text of the packages is the definition of bounds of results and of relational operators on metavalues'])


if __name__ == '__main__':
    vf.main(main)
