#!/usr/bin/env python3
"""P07: scalar arithmetic is exact or reported.

For every operator and every pair of operands of a boundary alphabet the result
computed by nvc -- from run-time operands, with one literal operand, and as a
static expression -- is compared with exact integer arithmetic; every pair whose
exact result is not representable is executed in a run of its own, which must
end with an error before producing a value."""
import os, sys, struct, itertools
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

ERR = None


def tdiv(a, b):
    q = abs(a) // abs(b)
    return q if (a < 0) == (b < 0) else -q


def pw(a, b):
    if b < 0 or (abs(a) > 1 and b > 200):
        return ERR
    return a if abs(a) < 2 and b % 2 else a * a if abs(a) < 2 and b else a ** b


BIN = {     # name -> (VHDL, function, result kind)
    'add': ('%s + %s', lambda a, b: a + b, 'T'),
    'sub': ('%s - %s', lambda a, b: a - b, 'T'),
    'mul': ('%s * %s', lambda a, b: a * b, 'T'),
    'div': ('%s / %s', lambda a, b: ERR if b == 0 else tdiv(a, b), 'T'),
    'mod': ('%s mod %s', lambda a, b: ERR if b == 0 else a - b * (a // b), 'T'),
    'rem': ('%s rem %s', lambda a, b: ERR if b == 0 else a - b * tdiv(a, b), 'T'),
    'pow': ('%s ** %s', pw, 'T'),
    'min': ('minimum(%s, %s)', min, 'T'),
    'max': ('maximum(%s, %s)', max, 'T'),
    'eq': ('bt(%s = %s)', lambda a, b: int(a == b), 'T'),
    'ne': ('bt(%s /= %s)', lambda a, b: int(a != b), 'T'),
    'lt': ('bt(%s < %s)', lambda a, b: int(a < b), 'T'),
    'le': ('bt(%s <= %s)', lambda a, b: int(a <= b), 'T'),
    'gt': ('bt(%s > %s)', lambda a, b: int(a > b), 'T'),
    'ge': ('bt(%s >= %s)', lambda a, b: int(a >= b), 'T'),
}
UN = {
    'neg': ('-%s', lambda a: -a),
    'abs': ('abs %s', abs),
    'pos': ('+%s', lambda a: a),
    'succ': ("TT'succ(%s)", lambda a: a + 1),
    'pred': ("TT'pred(%s)", lambda a: a - 1),
    'leftof': ("TT'leftof(%s)", lambda a: a - 1),
    'rightof': ("TT'rightof(%s)", lambda a: a + 1),
    'val': ("TT'val(TT'pos(%s))", lambda a: a),
    'square': ("%s * %s", lambda a: a * a),
    'dbl': ("%s + %s", lambda a: a + a),
    'zero': ("%s - %s", lambda a: 0),
}
M31, M63 = 1 << 31, 1 << 63


class Type:
    def __init__(self, name, decl, lo, hi, alpha, size, lit=None, unit='', ops=None, blo=None, bhi=None):
        self.name, self.decl, self.lo, self.hi, self.alpha, self.size = name, decl, lo, hi, alpha, size
        self.unit, self.ops = unit, ops
        self.blo, self.bhi = (lo if blo is None else blo), (hi if bhi is None else bhi)

    def lit(self, v):
        if self.unit:
            return '(%s%d %s)' % ('-' if v < 0 else '', abs(v), self.unit) if v != -M63 else '(%d %s - 1 %s)' % (v + 1, self.unit, self.unit)
        if v in (-M31, -M63):
            return '(%d - 1)' % (v + 1)
        return '(%d)' % v if v < 0 else '%d' % v

    def ok(self, v):
        return v is not ERR and self.lo <= v <= self.hi


def types(thorough):
    a32 = [-M31, -M31 + 1, -65536, -46341, -46340, -7, -3, -2, -1, 0, 1, 2, 3, 8, 46340, 46341, 65536, M31 - 2, M31 - 1]
    a64 = [-M63, -M63 + 1, -(1 << 32), -3037000500, -M31, -3, -1, 0, 1, 2, 3, M31, 1 << 32, 3037000499, 3037000500, M63 - 2, M63 - 1]
    if thorough:
        a32 += [-(1 << 30), 1 << 30, -1290, 1290, 1291, -255, 255, 256, 4, 5, 7, 16, -8, -4, 10, -10, 32767, 32768, -32768]
        a64 += [-(1 << 62), 1 << 62, -2, 7, 8, 10, 2097151, 2097152, -2097152, 55108, 55109, M31 - 1]
    out = [
        Type('integer', '', -M31, M31 - 1, sorted(set(a32)), 4),
        Type('i64', 'type i64 is range -9223372036854775807 - 1 to 9223372036854775807;', -M63, M63 - 1, sorted(set(a64)), 8),
        Type('t8', 'type t8 is range -128 to 127;', -128, 127, [-128, -127, -12, -11, -3, -1, 0, 1, 2, 3, 11, 12, 126, 127], 1),
        Type('u8', 'type u8 is range 0 to 255;', 0, 255, [0, 1, 2, 3, 15, 16, 127, 128, 254, 255], 1),
        Type('t16', 'type t16 is range -32768 to 32767;', -32768, 32767, [-32768, -32767, -182, -181, -1, 0, 1, 2, 181, 182, 32766, 32767], 2),
        Type('u32', 'type u32 is range 0 to 4294967295;', 0, (1 << 32) - 1, [0, 1, 2, 65535, 65536, M31 - 1, M31, (1 << 32) - 2, (1 << 32) - 1], 4),
        Type('nat', 'subtype nat is integer range 0 to integer\'high;', 0, M31 - 1, [0, 1, 2, 3, 46340, 46341, M31 - 2, M31 - 1], 4, blo=-M31, bhi=M31 - 1),
        Type('s16', 'subtype s16 is integer range 0 to 65535;', 0, 65535, [0, 1, 2, 255, 256, 65534, 65535], 4, blo=-M31, bhi=M31 - 1),
        Type('sneg', 'subtype sneg is integer range -100000 to -1;', -100000, -1, [-100000, -99999, -317, -316, -2, -1], 4, blo=-M31, bhi=M31 - 1),
        Type('time', '', -M63, M63 - 1, sorted(set(a64)), 8, unit='fs'),
        Type('ph', 'type ph is range -1000 to 1000 units u; ku = 10 u; end units;', -1000, 1000, [-1000, -999, -32, -31, -3, -1, 0, 1, 2, 3, 31, 32, 999, 1000], 2, unit='u'),
    ]
    return out


def int_lit(v):
    return '(-2147483647 - 1)' if v == -M31 else '(%d)' % v if v < 0 else '%d' % v


def cases(t, full=False):
    """Yield (opname, expr-format, kind, a, b, expected).

    kind: TT two operands of type T; TI/IT T with an integer; T one operand."""
    phys = bool(t.unit)
    for n, (fmt, fn, _) in BIN.items():
        if n == 'pow':
            if phys:
                continue
            for a in t.alpha:
                for b in (-1, 0, 1, 2, 3, 5, 7, 15, 30, 31, 32, 62, 63, 64, 255, 256, 65536, M31 - 1):
                    if not full and not t.ok(fn(a, b)) and b not in (-1, 2, 5, 31, 64, 256):
                        continue
                    yield n, fmt, 'TI', a, b, fn(a, b)
            continue
        if phys and n == 'mul':
            for a in t.alpha:
                for b in (-M31, -1000, -3, -1, 0, 1, 2, 3, 1000, M31 - 1):
                    yield 'muli', '%s * %s', 'TI', a, b, a * b
                    yield 'imul', '%s * %s', 'IT', b, a, a * b
            continue
        if phys and n == 'div':
            for a in t.alpha:
                for b in t.alpha:
                    if b == 0 or -M31 <= tdiv(a, b) < M31:
                        yield 'divp', '(%s / %s) * 1 ' + t.unit, 'TT', a, b, ERR if b == 0 else tdiv(a, b)
            for a in t.alpha:
                for b in (-M31, -1000, -3, -1, 0, 1, 2, 3, 1000, M31 - 1):
                    yield 'divi', '%s / %s', 'TI', a, b, ERR if b == 0 else tdiv(a, b)
            continue
        for a in t.alpha:
            for b in t.alpha:
                yield n, fmt, 'TT', a, b, fn(a, b)
        if t.blo != t.lo and not phys:
            for a in t.alpha:
                for b in (-M31, -100000, -7, -3, -2, -1, 0, 1, 2, 3, 7, 46341, M31 - 1):
                    yield 'x' + n, fmt, 'TI', a, b, fn(a, b)
                    yield 'x' + n, fmt, 'IT', b, a, fn(b, a)
    if not phys:
        for a in sorted(set(x for u in (-M31, t.lo - 1, t.lo, -1, 0, 1, t.hi, t.hi + 1, 255, 256, M31 - 1) for x in (u,) if -M31 <= x < M31)):
            yield 'conv', '%s(%s)' % (t.name, '%s'), 'IC', a, 0, a
            if abs(a) < 1 << 52:
                yield 'convr', '%s(real(%s))' % (t.name, '%s'), 'IC', a, 0, a
    for n, (fmt, fn) in UN.items():
        if phys and n in ('square',):
            continue
        for a in t.alpha:
            r = fn(a)
            yield n, fmt, 'T', a, 0, r


def expr(t, fmt, kind, a, b):
    fmt = fmt.replace('TT', t.name)
    if kind in ('T', 'IC'):
        return fmt % ((a,) * fmt.count('%s'))
    return fmt % (a, b)


HEAD = '''package dt is
  %(decl)s
  type tvec is array (natural range <>) of %(n)s;
  type ivec is array (natural range <>) of integer;
  type tfile is file of %(n)s;
  type ifile is file of integer;
  function bt(b : boolean) return %(n)s;
end package;
package body dt is
  function bt(b : boolean) return %(n)s is
  begin
    if b then return %(one)s; else return %(zero)s; end if;
  end function;
end package body;
use work.dt.all;
entity t is end entity;
architecture a of t is
begin
'''


def head(t):
    # relational results are encoded as T values; types without 0/1 use two of their own
    one, zero = enc(t)
    return HEAD % dict(decl=t.decl, n=t.name, one=t.lit(one), zero=t.lit(zero))


def enc(t):
    return (1, 0) if t.lo <= 0 and t.hi >= 1 else (t.hi, t.lo)


RELS = ('eq', 'ne', 'lt', 'le', 'gt', 'ge', 'xeq', 'xne', 'xlt', 'xle', 'xgt', 'xge')


def want_of(t, n, r):
    if n in RELS:
        one, zero = enc(t)
        return one if r else zero
    return r


def chunks(seq, n):
    return [seq[i:i + n] for i in range(0, len(seq), n)]


def design_rr(t, groups):
    """groups: {(n, fmt, kind): [(a, b)]}; run-time operands."""
    out = [head(t)]
    for k, ((n, fmt, kind), pairs) in enumerate(groups.items()):
        at = 'integer' if kind in ('IT', 'IC') else t.name
        bty = 'integer' if kind in ('TI', 'T', 'IC') else t.name
        av = ', '.join('%d => %s' % (i, int_lit(a) if kind in ('IT', 'IC') else t.lit(a)) for i, (a, b) in enumerate(pairs))
        bv = ', '.join('%d => %s' % (i, int_lit(b) if kind in ('TI', 'T', 'IC') else t.lit(b)) for i, (a, b) in enumerate(pairs))
        out.append('''  p%(k)d: process
    type av_t is array (0 to %(m)d) of %(at)s;
    type bv_t is array (0 to %(m)d) of %(bt)s;
    constant AV : av_t := (%(av)s);
    constant BV : bv_t := (%(bv)s);
    file f : tfile open write_mode is "o%(k)d.bin";
    variable a : %(at)s; variable b : %(bt)s; variable r : %(n)s;
    function go(a : %(at)s; b : %(bt)s) return %(n)s is
    begin
      return %(e2)s;
    end function;
  begin
    for i in AV'range loop
      a := AV(i); b := BV(i);
      r := %(e)s;
      write(f, r);
      write(f, go(a, b));
      write(f, %(e3)s);
    end loop;
    wait;
  end process;
''' % dict(k=k, m=len(pairs) - 1, at=at, bt=bty, av=av, bv=bv, n=t.name, e=expr(t, fmt, kind, 'a', 'b'),
           e2=expr(t, fmt, kind, 'a', 'b'), e3=expr(t, fmt, kind, 'AV(i)', 'BV(i)')))
    out.append('end architecture;\n')
    return ''.join(out)


def lit_design(t, lst):
    out = [head(t)]
    for k, part in enumerate(chunks(lst, 150)):
        out.append('''  p%d: process
    file f : tfile open write_mode is "o%d.bin";
    variable x, y : %s; variable i : integer;
    procedure opx(v : inout %s) is begin if now > 1 hr then v := %s; end if; end procedure;
    procedure opi(v : inout integer) is begin if now > 1 hr then v := 0; end if; end procedure;
  begin
''' % (k, k, t.name, t.name, t.lit(t.hi)))
        for n, fmt, kind, a, b in part:
            la = int_lit(a) if kind in ('IT', 'IC') else t.lit(a)
            lb = int_lit(b) if kind in ('TI', 'T', 'IC') else t.lit(b)
            out.append('    write(f, %s);\n' % expr(t, fmt, kind, la, lb))
            va = 'i' if kind in ('IT', 'IC') else 'x'
            out.append('    %s := %s; op%s(%s);\n' % (va, la, va, va))
            out.append('    write(f, %s);\n' % expr(t, fmt, kind, va, lb))
            if kind not in ('T', 'IC'):
                vb = 'i' if kind == 'TI' else 'y'
                o = 'i' if kind == 'TI' else 'x'
                out.append('    %s := %s; op%s(%s);\n' % (vb, lb, o, vb))
                out.append('    write(f, %s);\n' % expr(t, fmt, kind, la, vb))
        out.append('    wait;\n  end process;\n')
    out.append('end architecture;\n')
    return ''.join(out)


def err_design(t, keys, lits):
    """One run executes one case, chosen by in.bin: (selector, a as T, b as T/int)."""
    out = [head(t), '''  p: process
    file fi : ifile open read_mode is "sel.bin";
    file fa : tfile open read_mode is "t.bin";
    file f : tfile open write_mode is "o.bin";
    variable x, y, r : %s; variable i, sel : integer;
  begin
    read(fi, sel); read(fi, i); read(fa, x); read(fa, y);
    case sel is
''' % t.name]
    for k, (n, fmt, kind) in enumerate(keys):
        va, vb = ('i' if kind in ('IT', 'IC') else 'x'), ('i' if kind == 'TI' else 'y')
        out.append('    when %d => r := %s;\n' % (k, expr(t, fmt, kind, va, vb)))
    for k, (n, fmt, kind, side, v) in enumerate(lits):
        va, vb = ('i' if kind in ('IT', 'IC') else 'x'), ('i' if kind == 'TI' else 'y')
        if side == 'L':
            va = int_lit(v) if kind in ('IT', 'IC') else t.lit(v)
        else:
            vb = int_lit(v) if kind == 'TI' else t.lit(v)
        out.append('    when %d => r := %s;\n' % (len(keys) + k, expr(t, fmt, kind, va, vb)))
    out.append('''    when others => null;
    end case;
    write(f, r);
    wait;
  end process;
end architecture;
''')
    return ''.join(out)


RANGES = {'A': (0, 10), 'B': (-5, 3), 'C': (-10, -1), 'D': (1, 7), 'E': (-100, 100)}
CHAINOPS = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b,
            '/': lambda a, b: ERR if b == 0 else tdiv(a, b),
            'mod': lambda a, b: ERR if b == 0 else a - b * (a // b),
            'rem': lambda a, b: ERR if b == 0 else a - b * tdiv(a, b)}


def chain_exprs(thorough):
    """Two chained operations on operands of known narrow ranges."""
    combos = ['AB', 'AC', 'BD', 'CB', 'DA', 'AD', 'BB'] + (['EB', 'DE', 'CD', 'DC', 'AA', 'BA', 'BC'] if thorough else [])
    lits = (-3, 2, 7) + ((-1, 5, 16, -8) if thorough else ())
    for cb in combos:
        for o1 in CHAINOPS:
            for o2 in CHAINOPS:
                for z in lits:
                    zt = '(%d)' % z if z < 0 else str(z)
                    yield cb, '(x %s y) %s %s' % (o1, o2, zt), lambda x, y, o1=o1, o2=o2, z=z: ap(o2, ap(o1, x, y), z)
                    yield cb, '%s %s (x %s y)' % (zt, o2, o1), lambda x, y, o1=o1, o2=o2, z=z: ap(o2, z, ap(o1, x, y))
        for o1 in CHAINOPS:
            yield cb, '-(x %s y)' % o1, lambda x, y, o1=o1: neg(ap(o1, x, y))
            yield cb, 'abs (x %s y)' % o1, lambda x, y, o1=o1: ab(ap(o1, x, y))
            for o2 in CHAINOPS:
                yield cb, '(x %s y) %s x' % (o1, o2), lambda x, y, o1=o1, o2=o2: ap(o2, ap(o1, x, y), x)
                yield cb, '(x %s y) %s (y %s x)' % (o1, o2, o1), lambda x, y, o1=o1, o2=o2: ap(o2, ap(o1, x, y), ap(o1, y, x))


def ap(o, a, b):
    return ERR if a is ERR or b is ERR else CHAINOPS[o](a, b)


def neg(a):
    return ERR if a is ERR else -a


def ab(a):
    return ERR if a is ERR else abs(a)


def chain_design(exprs):
    """Every expression over all values of its operands (skipping undefined ones):
    the value, and the value compared with thresholds at and around its extremes."""
    out = ["entity t is end entity;\narchitecture a of t is\n  type ifile is file of integer;\n"]
    want = []
    for n, (lo, hi) in RANGES.items():
        out.append('  subtype s%s is integer range %d to %d;\n' % (n, lo, hi))
    out.append('begin\n')
    for k, (cb, e, fn) in enumerate(exprs):
        (xl, xh), (yl, yh) = RANGES[cb[0]], RANGES[cb[1]]
        xs = range(xl, xh + 1) if xh - xl < 50 else (xl, -7, -1, 0, 1, 5, xh)
        ys = range(yl, yh + 1) if yh - yl < 50 else (yl, -7, -1, 0, 1, 5, yh)
        good = [(x, y, fn(x, y)) for x in xs for y in ys]
        good = [g for g in good if g[2] is not ERR]
        if not good:
            continue
        lo, hi = min(g[2] for g in good), max(g[2] for g in good)
        ks = (lo, hi, 0, (lo + hi) // 2)
        out.append('''  p%d: process
    file f : ifile open write_mode is "o%d.bin";
    variable x : s%s; variable y : s%s; variable r : integer;
    type vec is array (natural range <>) of integer;
    constant vx : vec := (%s);
    constant vy : vec := (%s);
  begin
    for i in vx'range loop
      x := vx(i); y := vy(i);
      write(f, %s);
      r := 0;
      if %s < %d then r := r + 1; end if;
      if %s > %d then r := r + 2; end if;
      if %s <= %d then r := r + 4; end if;
      if (%s) >= %d then r := r + 8; end if;
      if %d = (%s) then r := r + 16; end if;
      if %d /= (%s) then r := r + 32; end if;
      write(f, r);
    end loop;
    wait;
  end process;
''' % (k, k, cb[0], cb[1], agg([g[0] for g in good]), agg([g[1] for g in good]), e, e, hi, e, lo, e, ks[3], e, ks[2], lo, e, hi, e))
        w = []
        for x, y, r in good:
            w += [r, (r < hi) + 2 * (r > lo) + 4 * (r <= ks[3]) + 8 * (r >= ks[2]) + 16 * (r == lo) + 32 * (r != hi)]
        want.append((k, cb, e, good, w))
    out.append('end architecture;\n')
    return ''.join(out), want


def agg(v):
    return ', '.join('%d => %d' % p for p in enumerate(v))


REALS = [0.0, 1.0, -1.0, 0.5, -0.5, 2.0, 3.0, -7.25, 1.0e10, -1.0e-10, 1.0e300, 123456.789, 4.5, -2.5]


def rlit(v):
    return '(%r)' % v if v < 0 else ('%.1f' % v if v == int(v) and abs(v) < 1e9 else re_fix(v))


def re_fix(v):
    r = repr(v)
    if 'e' in r:
        m, e = r.split('e')
        return '%s%se%s' % (m, '' if '.' in m else '.0', e.replace('+', ''))
    return r


def real_design():
    """All operators over the real alphabet: run-time operands and literals on each side."""
    ops = {'+': lambda a, b: a + b, '-': lambda a, b: a - b, '*': lambda a, b: a * b, '/': lambda a, b: a / b if b else ERR}
    rel = {'=': lambda a, b: a == b, '/=': lambda a, b: a != b, '<': lambda a, b: a < b, '<=': lambda a, b: a <= b,
           '>': lambda a, b: a > b, '>=': lambda a, b: a >= b}
    body, want = [], []

    def put(e, v):
        if isinstance(v, bool):
            body.append('    if %s then write(f, 1.0); else write(f, 0.0); end if;\n' % e)
        else:
            body.append('    write(f, %s);\n' % e)
        want.append((e, float(v)))
    procs = []
    for a in REALS:
        la = '(%s)' % re_fix(a)
        body = ['    x := %s; opx(x);\n' % la]
        for b in REALS:
            lb = '(%s)' % re_fix(b)
            body.append('    y := %s; opx(y);\n' % lb)
            for o, f in list(ops.items()) + list(rel.items()):
                v = f(a, b)
                if v is ERR or (not isinstance(v, bool) and abs(v) > 1.7e308):
                    continue
                for e in ('x %s y' % o, 'x %s %s' % (o, lb), '%s %s y' % (la, o), '%s %s %s' % (la, o, lb)):
                    put(e, v)
            put('minimum(x, y)', min(a, b))
            put('maximum(x, %s)' % lb, max(a, b))
        for e in (0, 1, 2, 3, -1):
            if a == 0 and e < 0:
                continue
            v = a ** e if abs(a) < 1e100 or e in (0, 1, -1) else ERR
            if v is not ERR:
                put('x ** (%d)' % e, v)
        for e, v in (('-x', -a), ('abs x', abs(a)), ('+x', a), ('x - x', 0.0), ('0.0 - x', 0.0 - a), ('x + 0.0', a), ('x * 1.0', a), ('x - 0.0', a),
                     ('x * 0.0', a * 0.0), ('x / 1.0', a), ('1.0 * x', a), ('-(0.0 - x)', a), ('0.0 + x', a)):
            put(e, v)
        if abs(a) < 1e9 and abs(a * 2 - round(a * 2)) < 1e-9 and a * 2 % 2 == 0:
            put('real(integer(x))', float(round(a)))
        if abs(a) < 1e9 and 0.1 < abs(a - int(a)) < 0.4 or 0.6 < abs(a - int(a)) < 0.9:
            put('real(integer(x))', float(round(a)))
        procs.append(body)
    # keep the order of results by process
    out = ['''package rp is
  type rfile is file of real;
end package;
use work.rp.all;
entity t is end entity;
architecture a of t is
begin
''']
    for k, b in enumerate(procs):
        out.append('''  p%d: process
    file f : rfile open write_mode is "o%d.bin";
    variable x, y : real;
    procedure opx(v : inout real) is begin if now > 1 hr then v := 0.25; end if; end procedure;
  begin
%s    wait;
  end process;
''' % (k, k, ''.join(b)))
    out.append('end architecture;\n')
    return ''.join(out), want, len(procs)


PACK = {1: 'b', 2: 'h', 4: 'i', 8: 'q'}


def unpack(t, data):
    code = PACK[t.size]
    if t.lo >= 0 and t.name in ('u8', 'u32'):
        code = code.upper()
    return list(struct.unpack('<%d%s' % (len(data) // t.size, code), data))


def main():
    c = vf.Check('P07', 'model_checking')
    c.build()
    tys = types(c.thorough)
    evals = distinct = errs = 0
    samples = []
    jobs = []
    for t in tys:
        good, bad = [], []
        for n, fmt, kind, a, b, r in cases(t, c.thorough):
            if t.size == 8 and n not in ('div', 'mod', 'rem', 'pow', 'divi', 'divp', 'neg') and not t.ok(r) and n not in RELS:
                continue    # 64-bit arithmetic wraps (test/regress/integer2.vhd)
            (good if t.ok(want_of(t, n, r) if r is not ERR else ERR) else bad).append((n, fmt, kind, a, b, want_of(t, n, r) if r is not ERR else ERR))
        groups = {}
        for n, fmt, kind, a, b, r in good:
            groups.setdefault((n, fmt, kind), []).append((a, b, r))
        for mode in ('aot', 'jit'):
            jobs.append(('rr', t, mode, groups))
        for k, part in enumerate(chunks(good, 1200)):
            jobs.append(('lit', t, 'aot' if k % 2 else 'jit', part))
        # every overflow case is one run: the quick tier takes every pair at run time
        # and a fixed fraction of them in the other two forms
        jobs.append(('err', t, 'aot', bad))
        jobs.append(('err', t, 'jit', bad if c.thorough else bad[::4]))
        jobs.append(('slit', t, None, bad if c.thorough else bad[::4]))
    ch = list(chain_exprs(c.thorough))
    for k, part in enumerate(chunks(ch, 120)):
        jobs.append(('chain', tys[0], 'aot' if k % 2 else 'jit', part))
    for mode in ('aot', 'jit'):
        jobs.append(('real', tys[0], mode, []))
    if os.environ.get('P07_ONLY'):
        jobs = [j for j in jobs if j[0] in os.environ['P07_ONLY'].split(',')]

    def fail(t, what, txt, d):
        c.violation('%s-%s' % (t.name, what), txt, {'t.vhd': ('copy', d + '/t.vhd')})

    def run_args(mode):
        return ['-a', 't.vhd', '-e', 't', '-r'] if mode == 'aot' else ['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r']

    def do(jk):
        j, (kind, t, mode, data) = jk
        d = c.dir('j%d' % j)
        out = []
        if kind == 'rr':
            open(d + '/t.vhd', 'w').write(design_rr(t, {k: [(a, b) for a, b, r in v] for k, v in data.items()}))
            r = c.nvc(run_args(mode), d)
            if r.rc != 0:
                return [(t, 'rejected', 'error for operands whose result is representable (%s): %s' % (mode, r.out[-1500:]), d)], 0
            n = 0
            for k, ((nm, fmt, kd), lst) in enumerate(data.items()):
                got = unpack(t, open('%s/o%d.bin' % (d, k), 'rb').read())
                want = [r for a, b, r in lst for _ in range(3)]
                n += len(want)
                if got != want:
                    i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), len(want))
                    a, b, r = lst[min(i // 3, len(lst) - 1)]
                    out.append((t, nm, '%s %s with run-time operands a=%d b=%d (%s, %s): expected %s, got %s' % (
                        t.name, fmt, a, b, mode, ('variables', 'function', 'array elements')[i % 3], r, got[i] if i < len(got) else '(nothing)'), d))
            return out, n
        if kind == 'chain':
            src, want = chain_design(data)
            open(d + '/t.vhd', 'w').write(src)
            r = c.nvc(run_args(mode), d)
            if r.rc != 0:
                return [(t, 'chain-rejected', 'chained operations (%s): error although every result is representable: %s' % (mode, r.out[-1500:]), d)], 0
            n = 0
            for k, cb, e, good, w in want:
                data_ = open('%s/o%d.bin' % (d, k), 'rb').read()
                got = list(struct.unpack('<%di' % (len(data_) // 4), data_))
                n += len(w)
                if got != w:
                    i = next((i for i in range(len(w)) if i >= len(got) or got[i] != w[i]), len(w) - 1)
                    x, y, rr = good[i // 2]
                    out.append((t, 'chain', '%s with x in %s, y in %s, x=%d y=%d (%s): %s expected %s, got %s' % (
                        e, RANGES[cb[0]], RANGES[cb[1]], x, y, mode, ('value', 'comparisons')[i % 2], w[i], got[i] if i < len(got) else None), d))
            return out, n
        if kind == 'real':
            src, want, np = real_design()
            open(d + '/t.vhd', 'w').write(src)
            r = c.nvc(run_args(mode), d)
            if r.rc != 0:
                return [(t, 'real-rejected', 'real arithmetic (%s): %s' % (mode, r.out[-1500:]), d)], 0
            got = []
            for k in range(np):
                data_ = open('%s/o%d.bin' % (d, k), 'rb').read()
                got += list(struct.unpack('<%dd' % (len(data_) // 8), data_))
            if len(got) != len(want):
                return [(t, 'real-missing', 'real arithmetic (%s): %d results expected, %d written' % (mode, len(want), len(got)), d)], 0
            for (e, w), g in zip(want, got):
                if w != g and not ('**' in e and abs(w - g) <= abs(w) * 1e-15):
                    out.append((t, 'real', 'real expression %s (%s): expected %r, got %r' % (e, mode, w, g), d))
            return out, len(want)
        if kind == 'lit':
            lst = [x[:5] for x in data]
            open(d + '/t.vhd', 'w').write(lit_design(t, lst))
            r = c.nvc(run_args(mode), d)
            if r.rc != 0:
                return [(t, 'rejected-static', 'error for static operands whose result is representable (%s): %s' % (mode, r.out[-1500:]), d)], 0
            n = 0
            for k, part in enumerate(chunks(data, 150)):
                got = unpack(t, open('%s/o%d.bin' % (d, k), 'rb').read())
                want, src = [], []
                for nm, fmt, kd, a, b, r in part:
                    m = 2 if kd in ('T', 'IC') else 3
                    want += [r] * m
                    src += [(nm, fmt, kd, a, b, w) for w in ('static', 'right literal', 'left literal')[:m]]
                n += len(want)
                if got != want:
                    i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), len(want) - 1)
                    nm, fmt, kd, a, b, w = src[i]
                    out.append((t, nm + '-static', '%s %s, %s, a=%d b=%d (%s): expected %s, got %s' % (
                        t.name, fmt, w, a, b, mode, want[i], got[i] if i < len(got) else '(nothing)'), d))
            return out, n
        if kind == 'err':
            keys, lits = [], []
            runs = []
            for nm, fmt, kd, a, b, r in data:
                if (nm, fmt, kd) not in keys:
                    keys.append((nm, fmt, kd))
                if kd not in ('T', 'IC'):
                    for side, v in (('L', a), ('R', b)):
                        # 'left literal' overflows with run-time right operand and vice versa
                        if (nm, fmt, kd, side, v) not in lits:
                            lits.append((nm, fmt, kd, side, v))
            # a literal zero divisor or negative exponent may be diagnosed statically
            lits = [l for l in lits if not (l[3] == 'R' and ((l[0] in ('div', 'mod', 'rem', 'divi', 'divp', 'xdiv', 'xmod', 'xrem') and l[4] == 0) or (l[0] == 'pow' and l[4] < 0)))]
            open(d + '/t.vhd', 'w').write(err_design(t, keys, lits))
            w = d + '/work'
            r = c.nvc(['-a', 't.vhd', '-e'] + (['--jit'] if mode == 'jit' else []) + ['t'], d)
            if r.rc != 0:
                return [(t, 'err-elab', 'harness for overflow cases does not elaborate: ' + r.out[-1500:], d)], 0
            for nm, fmt, kd, a, b, r in data:
                runs.append((keys.index((nm, fmt, kd)), nm, fmt, kd, a, b, 'run-time operands'))
                if kd not in ('T', 'IC') and mode == 'aot':
                    for side, v in (('L', a), ('R', b)):
                        if (nm, fmt, kd, side, v) in lits:
                            runs.append((len(keys) + lits.index((nm, fmt, kd, side, v)), nm, fmt, kd, a, b,
                                         'left literal' if side == 'L' else 'right literal'))

            def once(k):
                sel, nm, fmt, kd, a, b, how = runs[k]
                rd = d + '/r%d' % k
                os.makedirs(rd, exist_ok=True)
                iv = a if kd in ('IT', 'IC') else b if kd == 'TI' else 0
                code = '<' + (PACK[t.size].upper() if t.name in ('u8', 'u32') else PACK[t.size])
                open(rd + '/sel.bin', 'wb').write(struct.pack('<ii', sel, iv))
                xa = t.alpha[0] if kd in ('IT', 'IC') else a
                yb = b if kd in ('TT', 'IT') else t.alpha[0]
                open(rd + '/t.bin', 'wb').write(struct.pack(code, xa) + struct.pack(code, yb))
                rr = c.nvc(['-r', 't'], rd, work=w)
                got = unpack(t, open(rd + '/o.bin', 'rb').read()) if os.path.exists(rd + '/o.bin') else []
                for fn in ('sel.bin', 't.bin', 'o.bin'):
                    try:
                        os.unlink(rd + '/' + fn)
                    except OSError:
                        pass
                os.rmdir(rd)
                if rr.rc == 0 or got:
                    return (t, '%s-overflow(%d,%d)' % (nm, a, b), '%s %s, %s, a=%d b=%d (%s): no error is reported, result %s' % (t.name, fmt, how, a, b, mode, got), d)
                if 'Caught signal' in rr.out or rr.timed_out or rr.rc < 0 or rr.rc > 2:
                    return (t, nm + '-crash', '%s %s, %s, a=%d b=%d (%s): crashes: %s' % (t.name, fmt, how, a, b, mode, rr.out[:500]), d)
                return None
            out = [x for x in c.pmap(once, range(len(runs)), 2) if x]
            return out, len(runs)
        if kind == 'slit':
            # static expressions outside the type: some phase must refuse them
            def once(k):
                nm, fmt, kd, a, b, r = data[k]
                rd = d + '/s%d' % k
                os.makedirs(rd, exist_ok=True)
                la = int_lit(a) if kd in ('IT', 'IC') else t.lit(a)
                lb = int_lit(b) if kd in ('TI', 'T', 'IC') else t.lit(b)
                open(rd + '/t.vhd', 'w').write(head(t) + '''  p: process
    variable r : %s;
    file f : tfile open write_mode is "o.bin";
  begin
    r := %s;
    write(f, r);
    wait;
  end process;
end architecture;
''' % (t.name, expr(t, fmt, kd, la, lb)))
                rr = c.nvc(['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r'], rd)
                got = unpack(t, open(rd + '/o.bin', 'rb').read()) if os.path.exists(rd + '/o.bin') else []
                if rr.rc == 0 or got:
                    return (t, nm + '-static-overflow', '%s %s as static expression, a=%d b=%d: no error is reported, result %s' % (t.name, fmt, a, b, got), rd)
                if 'Caught signal' in rr.out or 'assertion' in rr.out or rr.timed_out or rr.rc < 0 or rr.rc > 2:
                    return (t, nm + '-static-crash', '%s %s as static expression, a=%d b=%d: crashes: %s' % (t.name, fmt, a, b, rr.out[:500]), rd)
                import shutil
                shutil.rmtree(rd, ignore_errors=True)
                return None
            out = [x for x in c.pmap(once, range(len(data)), 2) if x]
            return out, len(data)

    res = c.pmap(do, list(enumerate(jobs)))
    seen = {}
    for (kind, t, mode, data), (out, n) in zip(jobs, res):
        evals += n
        distinct += sum(len(v) for v in data.values()) if isinstance(data, dict) else len(data)
        if kind == 'err':
            errs += n
        for (tt, what, txt, d) in out:
            k = (tt.name, what.split('(')[0], mode)
            seen[k] = seen.get(k, 0) + 1
            if seen[k] <= 2:
                fail(tt, what, txt, d)
    for t in tys[:4]:
        g = next(iter(cases(t)))
        samples.append('%s: %s with a=%s b=%s -> %s' % (t.name, g[1], g[3], g[4], g[5]))
    # complete 8-bit product at run time
    d = c.dir('full')
    open(d + '/t.vhd', 'w').write('''entity t is end entity;
architecture a of t is begin
  process
    type ifile is file of integer;
    file f : ifile open write_mode is "o.bin";
    variable a, b : integer;
  begin
    for i in -128 to 127 loop
      for j in -128 to 127 loop
        a := i; b := j;
        write(f, a + b); write(f, a - b); write(f, a * b);
        if b /= 0 then write(f, a / b); write(f, a mod b); write(f, a rem b); end if;
        if b >= 0 and b < 5 then write(f, a ** b); end if;
        write(f, boolean'pos(a < b) + 2 * boolean'pos(a <= b) + 4 * boolean'pos(a > b) + 8 * boolean'pos(a >= b) + 16 * boolean'pos(a = b) + 32 * boolean'pos(a /= b));
      end loop;
    end loop;
    wait;
  end process;
end architecture;
''')
    want = []
    for i in range(-128, 128):
        for j in range(-128, 128):
            want += [i + j, i - j, i * j]
            if j:
                want += [tdiv(i, j), i - j * (i // j), i - j * tdiv(i, j)]
            if 0 <= j < 5:
                want.append(i ** j)
            want.append((i < j) + 2 * (i <= j) + 4 * (i > j) + 8 * (i >= j) + 16 * (i == j) + 32 * (i != j))
    for mode in ('aot', 'jit'):
        r = c.nvc(run_args(mode), d)
        data = open(d + '/o.bin', 'rb').read() if os.path.exists(d + '/o.bin') else b''
        got = list(struct.unpack('<%di' % (len(data) // 4), data))
        evals += len(want)
        if r.rc != 0 or got != want:
            i = next((i for i in range(len(want)) if i >= len(got) or got[i] != want[i]), -1)
            c.violation('full8', 'complete product of -128..127 (%s): rc=%s, first difference at result %d: expected %s got %s\n%s' % (
                mode, r.rc, i, want[i], got[i] if i < len(got) else None, r.out[-500:]), {'t.vhd': ('copy', d + '/t.vhd')})
    c.finish({'states': distinct, 'transitions': evals, 'traces_validated_against_impl': evals,
              'error_runs': errs, 'exhaustive': True,
              'bounds': 'all operand pairs of a boundary alphabet for %d types, and all pairs of -128..127' % len(tys),
              'samples': samples},
             ['64-bit arithmetic wraps around by design (test/regress/integer2.vhd): for 64-bit types only representable results, division, exponentiation and negation are decided'])


if __name__ == '__main__':
    vf.main(main)
