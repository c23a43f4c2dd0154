#!/usr/bin/env python3
"""P21: waveform dumps contain exactly the history of every signal.

Every short history over a small value set of a signal of every dumpable type
(whole and element-wise drivers), ports connected to every kind of part of a
signal (slices, elements, fields, through several levels, in both directions),
values that exist only for a delta cycle, all stop times, all small sets of
include/exclude patterns, both file formats.  The dump is decoded and compared
with the history computed here.
"""
import os, re, sys, itertools, subprocess, struct
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

TOOLS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'tools')
SDT = {'BOOLEAN': 1, 'BIT': 2, 'BIT_VECTOR': 2, 'STD_ULOGIC': 4, 'STD_ULOGIC_VECTOR': 5, 'STD_LOGIC': 6,
       'STD_LOGIC_VECTOR': 7, 'UNSIGNED': 8, 'SIGNED': 9, 'INTEGER': 10, 'REAL': 11, 'CHARACTER': 15,
       'STRING': 16, 'NATURAL': 12, 'POSITIVE': 13}

# ---------------------------------------------------------------- types
class Scalar:
    array = record = False
    def __init__(self, name, kind, vals, ind=None, lits=None, idt=None):
        self.name, self.kind, self.vals = name, kind, vals
        self.ind = ind or name      # subtype indication
        self.lits = lits            # how to write each value
        self.tn = (idt or name).upper()
    def lit(self, v):
        if self.lits:
            return self.lits(v)
        return str(v)
    def leaves(self, n, v, pre=()):
        return [(pre, n, self.kind, self.tn, v)]
    def subs(self):
        return []
    def zero(self):
        return self.vals[0]


def ilit(v):
    return '(-2147483647 - 1)' if v == -2**31 else str(v)


class Vec:
    """array of scalars"""
    array, record = True, False
    def __init__(self, name, elem, l, d, r, vals, idx=None, anon=False):
        self.base, self.elem, self.l, self.d, self.r = name, elem, l, d, r
        self.ind = name if anon else '%s(%d %s %d)' % (name, l, d, r)
        self.tn = name.upper()
        self.vals = vals
        self.kind = elem.kind
        self.n = (r - l if d == 'to' else l - r) + 1
        self.idx = [l + i if d == 'to' else l - i for i in range(self.n)]
    def lit(self, v):
        assert len(v) == self.n
        if self.n == 0:
            return '(%d %s %d => %s)' % (self.l, self.d, self.r, self.elem.lit(self.elem.zero()))
        return '(' + ', '.join('%d => %s' % (i, self.elem.lit(x)) for i, x in zip(self.idx, v)) + ')'
    def leaves(self, n, v, pre=()):
        return [(pre,) + x for x in self.rend(n, v)]
    def rend(self, n, v, tn=None):
        k = self.elem
        if self.base == 'string':
            return [('%s[%d:%d]' % (n, self.l, self.r), 'raw', tn or self.tn, v)]
        if k.kind == 'logic':
            return [('%s[%d:%d]' % (n, self.l, self.r), 'logicv', tn or self.tn, ''.join(v))]
        if k.kind == 'enum':
            return [('%s[%d:%d]' % (n, self.l, self.r), 'enumv', tn or self.tn, tuple(v))]
        return [('%s[%d]' % (n, i), k.kind, k.tn, x) for i, x in zip(self.idx, v)]
    def inner(self, n, v, tn):
        """as the innermost dimension of an array of arrays"""
        k = self.elem
        if k.kind in ('logic', 'enum') or self.base == 'string':
            return self.rend(n, v, tn)
        nm = '%s[%d:%d]' % (n, self.l, self.r)
        if k.kind == 'int':
            return [(nm, 'intv', tn, tuple(v))]
        if k.kind == 'phys':
            return [(nm, 'physv', tn, tuple(v))]
        return []
    def subs(self):
        o = []
        for k in range(self.n):
            o.append(('(%d)' % self.idx[k], self.elem, lambda v, k=k: v[k]))
        for a in range(self.n):
            for b in range(a, self.n):
                l, r = self.idx[a], self.idx[b]
                t = Vec(self.base, self.elem, l, self.d, r, [v[a:b + 1] for v in self.vals])
                o.append(('(%d %s %d)' % (l, self.d, r), t, lambda v, a=a, b=b: v[a:b + 1]))
        return o
    def zero(self):
        return self.vals[0]


class Arr:
    """array of arrays or of records"""
    array, record = True, False
    def __init__(self, name, elem, l, d, r, vals):
        self.name, self.ind, self.elem, self.l, self.d, self.r = name, name, elem, l, d, r
        self.tn = name.upper()
        self.vals = vals
        self.n = (r - l if d == 'to' else l - r) + 1
        self.idx = [l + i if d == 'to' else l - i for i in range(self.n)]
    def lit(self, v):
        return '(' + ', '.join('%d => %s' % (i, self.elem.lit(x)) for i, x in zip(self.idx, v)) + ')'
    def leaves(self, n, v, pre=()):
        t = self.elem
        while isinstance(t, Arr):
            t = t.elem
        o = []
        if t.record:
            for i, x in zip(self.idx, v):
                o += self.elem.leaves('%s[%d]' % (n, i), x, pre)
            return o
        for i, x in zip(self.idx, v):
            nm = '%s[%d]' % (n, i)
            if isinstance(self.elem, Arr):
                o += self.elem.leaves(nm, x, pre)
            else:
                o += [(pre,) + q for q in self.elem.inner(nm, x, None)]
        return o
    def subs(self):
        return [('(%d)' % self.idx[k], self.elem, lambda v, k=k: v[k]) for k in range(self.n)]
    def zero(self):
        return self.vals[0]


class Rec:
    array, record = False, True
    def __init__(self, name, fields, vals):
        self.name, self.ind, self.fields, self.vals = name, name, fields, vals
        self.tn = name.upper()
    def lit(self, v):
        return '(' + ', '.join('%s => %s' % (f, t.lit(x)) for (f, t), x in zip(self.fields, v)) + ')'
    def leaves(self, n, v, pre=()):
        o = []
        for (f, t), x in zip(self.fields, v):
            o += t.leaves(f, x, pre + (n,))
        return o
    def subs(self):
        return [('.' + f, t, lambda v, k=k: v[k]) for k, (f, t) in enumerate(self.fields)]
    def zero(self):
        return self.vals[0]


q = lambda v: "'%s'" % v
CH = [chr(i) for i in range(256)]
CNAME = ('NUL SOH STX ETX EOT ENQ ACK BEL BS HT LF VT FF CR SO SI DLE DC1 DC2 DC3 DC4 NAK SYN ETB CAN EM SUB '
         'ESC FSP GSP RSP USP').split()


def cimage(c):
    o = ord(c)
    return CNAME[o] if o < 32 else 'DEL' if o == 127 else 'C%d' % o if 128 <= o < 160 else "'%s'" % c


def clit(v):   # v is the literal as written
    return v


bit = Scalar('bit', 'logic', ['0', '1'], lits=q)
ulog = Scalar('std_ulogic', 'logic', list('UX01ZWLH-'), lits=q)
slog = Scalar('std_logic', 'logic', list('UX01ZWLH-'), lits=q)
boo = Scalar('boolean', 'enum', ['false', 'true'])
char = Scalar('character', 'enum', ["'A'", "'a'", 'nul', "' '", "'\\'", "'''", 'del', "'\xe9'", "'\xff'", 'c128', "','"])
integer = Scalar('integer', 'int', [0, -1, 2**31 - 1, -2**31, 5], lits=ilit)
nat = Scalar('natural', 'int', [0, 1, 2**31 - 1])
pos = Scalar('positive', 'int', [1, 2, 7])
isub = Scalar('isub', 'int', [-4, 3, 0], idt='isub')
ianon = Scalar('ianon', 'int', [-4, 3, 0], ind='integer range -4 to 3', idt='integer')
small = Scalar('small', 'int', [-4, 3, -1])
usmall = Scalar('usmall', 'int', [0, 3, 2])
mid = Scalar('mid', 'int', [-300, 300, -1])
umid = Scalar('umid', 'int', [0, 300, 299])
down = Scalar('down', 'int', [7, 0, 4])
real = Scalar('real', 'real', [0.0, -1.5, 1.0e30, 2.25], lits=lambda v: repr(v).replace('e+', 'e') if 'e' not in repr(v) or '.' in repr(v) else repr(v).replace('e+', '.0e'))
tim = Scalar('time', 'phys', [0, 1, -1, 10**6, -616, -10**6, 5 * 10**12, 90 * 10**15, 7200 * 10**15], lits=lambda v: '%d fs' % v)
FS = dict(fs=1, ps=10**3, ns=10**6, us=10**9, ms=10**12, sec=10**15, min=60 * 10**15, hr=3600 * 10**15)
res = Scalar('res', 'phys', [-5000, 616, -616, 0, 2000], lits=lambda v: '%d mo' % v)
RES = dict(mo=1, ohm=1000, kohm=1000000)
en = Scalar('en', 'enum', ['red', "'A'", "'a'", '\\Ext\\', 'blue'])
one = Scalar('one', 'enum', ['only'])
big = Scalar('big', 'enum', ['l0', 'l127', 'l128', 'l255', 'l256', 'l299'])
ensub = Scalar('ensub', 'enum', ["'A'", "'a'"])
mine = Scalar('mine', 'enum', ["'0'", "'1'", 'z'])

DECLS = '''
  subtype isub is integer range -4 to 3;
  type small is range -4 to 3;
  type usmall is range 0 to 3;
  type mid is range -300 to 300;
  type umid is range 0 to 300;
  type down is range 7 downto 0;
  type res is range -10000000 to 10000000 units mo; ohm = 1000 mo; kohm = 1000 ohm; end units;
  type en is (red, 'A', 'a', \\Ext\\, BLUE);
  type one is (only);
  type big is (%s);
  subtype ensub is en range 'A' to 'a';
  type mine is ('0', '1', Z);
  type env is array (integer range <>) of en;
  type minev is array (natural range <>) of mine;
  type bigv is array (natural range <>) of big;
  type smallv is array (integer range <>) of small;
  type midv is array (integer range <>) of mid;
  type resv is array (natural range <>) of res;
  type slvs is array (0 to 1) of std_logic_vector(2 downto 0);
  type slvd is array (5 downto 4) of std_logic_vector(1 to 2);
  type slv3 is array (1 downto 0) of slvs;
  type strs is array (1 to 2) of string(1 to 3);
  type bools is array (1 to 2) of boolean_vector(0 to 1);
  type ints is array (2 to 3) of integer_vector(0 to 1);
  type tims is array (2 to 3) of time_vector(1 downto 0);
  type rec is record a : integer; b : std_logic_vector(2 downto 0); c : boolean; end record;
  type rec2 is record p : bit; q : rec; r : real; t : time; end record;
  type rec3 is record s : string(1 to 2); e : en; w : slvs; v : boolean_vector(0 to 1); end record;
  type recv is array (1 to 2) of rec;
  type recd is array (3 downto 2) of rec;
  type recvv is array (0 to 1) of recv;
  type rec4 is record x : recv; y : bit; end record;
''' % ', '.join('l%d' % i for i in range(300))


def V(name, elem, l, d, r, vals):
    return Vec(name, elem, l, d, r, [tuple(v) for v in vals])


slvs_e = V('std_logic_vector', slog, 2, 'downto', 0, ['01Z', 'HL-', '000', '001'])
slvd_e = V('std_logic_vector', slog, 1, 'to', 2, ['01', 'HL', '1U'])
strs_e = V('string', char, 1, 'to', 3, [["'A'", "'b'", "'c'"], ["'d'", "'E'", "' '"]])
bools_e = V('boolean_vector', boo, 0, 'to', 1, [['false', 'true'], ['true', 'false']])
ints_e = V('integer_vector', integer, 0, 'to', 1, [[1, -1], [7, 2]])
tims_e = V('time_vector', tim, 1, 'downto', 0, [[1, -616], [10**6, 2]])
E = lambda t, *ix: tuple(t.vals[i] for i in ix)
slvs = Arr('slvs', slvs_e, 0, 'to', 1, [E(slvs_e, 0, 1), E(slvs_e, 0, 2), E(slvs_e, 3, 2)])
slvd = Arr('slvd', slvd_e, 5, 'downto', 4, [E(slvd_e, 0, 1), E(slvd_e, 0, 2), E(slvd_e, 1, 1)])
slv3 = Arr('slv3', slvs, 1, 'downto', 0, [E(slvs, 0, 1), E(slvs, 0, 2), E(slvs, 2, 2)])
strs = Arr('strs', strs_e, 1, 'to', 2, [E(strs_e, 0, 1), E(strs_e, 0, 0), E(strs_e, 1, 0)])
bools = Arr('bools', bools_e, 1, 'to', 2, [E(bools_e, 0, 1), E(bools_e, 0, 0), E(bools_e, 1, 0)])
ints = Arr('ints', ints_e, 2, 'to', 3, [E(ints_e, 0, 1), E(ints_e, 0, 0), E(ints_e, 1, 0)])
tims = Arr('tims', tims_e, 2, 'to', 3, [E(tims_e, 0, 1), E(tims_e, 0, 0), E(tims_e, 1, 0)])
rec = Rec('rec', [('a', integer), ('b', slvs_e), ('c', boo)],
          [(1, tuple('01Z'), 'false'), (-2, tuple('01Z'), 'true'), (1, tuple('HL-'), 'true')])
rec2 = Rec('rec2', [('p', bit), ('q', rec), ('r', real), ('t', tim)],
           [('0', rec.vals[0], 1.5, 5), ('1', rec.vals[1], 1.5, -7), ('1', rec.vals[2], -2.0, 10**6)])
rec3 = Rec('rec3', [('s', V('string', char, 1, 'to', 2, [["'A'", "'b'"]])), ('e', en), ('w', slvs), ('v', bools_e)],
           [(("'A'", "'b'"), 'red', slvs.vals[0], bools_e.vals[0]), (("'A'", "'B'"), "'a'", slvs.vals[1], bools_e.vals[1]),
            (("'x'", "'b'"), 'blue', slvs.vals[0], bools_e.vals[1])])
recv = Arr('recv', rec, 1, 'to', 2, [E(rec, 0, 1), E(rec, 0, 2), E(rec, 1, 1)])
recd = Arr('recd', rec, 3, 'downto', 2, [E(rec, 0, 1), E(rec, 0, 2), E(rec, 1, 1)])
recvv = Arr('recvv', recv, 0, 'to', 1, [E(recv, 0, 1), E(recv, 0, 2), E(recv, 1, 1)])
rec4 = Rec('rec4', [('x', recv), ('y', bit)], [(recv.vals[0], '0'), (recv.vals[1], '1'), (recv.vals[2], '1')])

SCALARS = [bit, ulog, slog, boo, char, integer, nat, pos, isub, ianon, small, usmall, mid, umid, down, real, tim,
           res, en, one, big, ensub, mine]
VECS = [
    V('bit_vector', bit, 3, 'downto', 0, ['0101', '0001', '1001']),
    V('bit_vector', bit, 1, 'to', 3, ['010', '000', '110']),
    V('bit_vector', bit, 9, 'downto', 1, ['010000001', '110000001', '000111000']),
    V('bit_vector', bit, 0, 'to', 0, ['0', '1']),
    V('bit_vector', bit, 0, 'downto', 1, ['']),
    V('bit_vector', bit, 69, 'downto', 0, ['01' * 35, '1' + '01' * 34 + '0', '0' * 69 + '1']),
    V('std_logic_vector', slog, 3, 'downto', 1, ['UX0', '1ZW', 'LH-']),
    V('std_ulogic_vector', ulog, 0, 'to', 1, ['UX', '1Z', 'L-']),
    V('unsigned', slog, 2, 'downto', 0, ['000', '111', '101']),
    V('signed', slog, 2, 'downto', 1, ['00', '11', '10']),
    V('string', char, 1, 'to', 3, [["'A'", "'b'", "'c'"], ["'A'", "' '", "'c'"], ["'\\'", "'''", "'\xe9'"]]),
    V('string', char, 2, 'to', 3, [["'A'", "'b'"], ['nul', 'lf'], ["'x'", 'del']]),
    V('boolean_vector', boo, 0, 'to', 2, [['false', 'true', 'false'], ['false', 'false', 'true'], ['true'] * 3]),
    V('env', en, -1, 'to', 1, [['red', "'A'", "'a'"], ['blue', "'A'", "'A'"], ['\\Ext\\'] * 3]),
    V('minev', mine, 1, 'downto', 0, [["'0'", "'1'"], ['z', "'1'"], ["'0'", 'z']]),
    V('bigv', big, 1, 'to', 2, [['l0', 'l256'], ['l299', 'l256'], ['l0', 'l1']]),
    V('integer_vector', integer, 1, 'to', 2, [[0, -1], [5, -1], [-2**31, 2**31 - 1]]),
    V('smallv', small, -1, 'to', 1, [[-4, 3, 0], [-4, -1, 0], [1, 1, 1]]),
    V('midv', mid, 5, 'downto', 4, [[-300, 300], [0, 300], [1, 1]]),
    V('real_vector', real, 1, 'to', 2, [[0.0, -1.5], [2.25, -1.5], [0.0, 1.0e30]]),
    V('time_vector', tim, 0, 'to', 1, [[0, -616], [10**6, -616], [1, 2]]),
    V('resv', res, 1, 'downto', 0, [[-5000, 616], [2000, 616], [0, 1]]),
]
COMPS = [slvs, slvd, slv3, strs, bools, ints, tims, rec, rec2, rec3, recv, recd, recvv, rec4]

HEAD = 'library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;\n'
NS = 10**6


def canon_enum(s):
    return s if s.startswith(("'", '\\')) else s.lower()


def expect(kind, v):
    if kind == 'enum':
        return v
    if kind == 'enumv':
        return '(' + ','.join(v) + ')' if v else ''
    if kind == 'raw':
        return ''.join({'nul': '\0', 'lf': '\n', 'del': '\x7f'}.get(x) or x[1:-1] for x in v)
    return v


def decode(kind, s, width, exp):
    """canonical value of what the dump says, s is a latin-1 string"""
    if kind in ('logic', 'logicv'):
        return s.upper()     # the format does not distinguish
    if kind == 'raw':
        return s
    if kind == 'enum':
        return canon_enum(s)
    if kind == 'enumv':
        out = []
        i = 0
        if not s:
            return s
        if s[0] != '(' or s[-1] != ')':
            return ('bad', s)
        return '(' + re.sub(r"'.'|\\[^\\]*\\|[A-Za-z]\w*", lambda m: canon_enum(m.group(0)), s[1:-1]) + ')'
    if kind == 'real':
        return float(s)
    def dp(x):
        m = re.match(r'^(-?\d+) (\w+)$', x)
        if not m:
            return ('bad', x)
        u = m.group(2).lower()
        if u in FS:
            return int(m.group(1)) * FS[u]
        if u in RES:
            return int(m.group(1)) * RES[u]
        return ('bad', x)
    if kind == 'phys':
        return dp(s)
    if kind == 'physv':
        if s[:1] != '(' or s[-1:] != ')':
            return ('bad', s)
        return tuple(dp(x) for x in s[1:-1].split(','))
    def di(b, e):
        if not re.match(r'^[01]+$', b):
            return ('bad', b)
        n = int(b, 2)
        if (n - e) % (1 << len(b)) == 0 and -(1 << len(b)) // 2 <= e < (1 << len(b)):
            return e
        return ('bad', b)
    if kind == 'int':
        return di(s, exp)
    if kind == 'intv':
        k = len(exp)
        if len(s) % k:
            return ('bad', s)
        w = len(s) // k
        return tuple(di(s[i * w:i * w + w], exp[i]) for i in range(k))
    raise Exception(kind)


# ---------------------------------------------------------------- decoders of the two formats
def unesc(s):
    def f(m):
        x = m.group(1)
        if x[0] in '01234567':
            return chr(int(x, 8))
        if x[0] == 'x':
            return chr(int(x[1:], 16))
        return {'a': '\a', 'b': '\b', 'f': '\f', 'n': '\n', 'r': '\r', 't': '\t', 'v': '\v'}.get(x, x)
    return re.sub(r'\\(x[0-9a-fA-F]{2}|[0-7]{3}|.)', f, s)


class Dump:
    def __init__(self):
        self.vars = {}      # (scopes..., name) -> (id, vtype, size, dir, sdt)
        self.dup = []
        self.hist = {}      # id -> [(t, value)]
        self.end = None
        self.scopes = {}

    def add(self, stack, name, v):
        k = tuple(stack) + (name,)
        if k in self.vars:
            self.dup.append(k)
        self.vars[k] = v


VT = {1: 'integer', 3: 'real', 21: 'string', 23: 'logic'}
ST = {0: 'module', 12: 'vhdl_architecture', 15: 'vhdl_record', 17: 'vhdl_block', 18: 'vhdl_for_generate',
      19: 'vhdl_if_generate', 21: 'vhdl_package'}


def read_fst(txt):
    d = Dump()
    st = []
    attr = None
    for l in txt.split('\n'):
        if l[:2] == 'C ':
            _, t, h, v = (l.split(' ') + [''])[:4]
            d.hist.setdefault(int(h), []).append((int(t), bytes.fromhex(v).decode('latin-1')))
        elif l[:2] == 'S ':
            _, k, n = l.split(' ', 2)
            st.append(n)
            d.scopes[tuple(st)] = int(k)
        elif l == 'U':
            st.pop()
        elif l[:2] == 'A ':
            _, a, n = l.split(' ', 2)
            attr = (int(a) & 1023, n)
        elif l[:2] == 'V ':
            _, ty, di, ln, h, n = l.split(' ', 5)
            d.add(st, n, (int(h), VT.get(int(ty), ty), int(ln), int(di), attr))
        elif l[:2] == 'E ':
            d.end = int(l.split()[2])
    return d


def read_vcd(raw):
    s = raw.decode('latin-1')
    d = Dump()
    i = s.index('$enddefinitions $end')
    st = []
    attr = None
    for l in s[:i].split('\n'):
        if l.startswith('$upscope'):
            st.pop()
            continue
        m = re.match(r'^\$(\w+) (.*) \$end$', l)
        if not m:
            continue
        k, rest = m.group(1), m.group(2).split()
        if k == 'scope':
            st.append(rest[1])
            d.scopes[tuple(st)] = rest[0]
        elif k == 'attrbegin' and rest[:2] == ['misc', '02']:
            attr = (int(rest[-1]) & 1023, ' '.join(rest[2:-1]))
        elif k == 'var':
            d.add(st, ' '.join(rest[3:]), (rest[2], rest[0], int(rest[1]), None, attr))
    t = None
    for l in s[i:].split('\n')[1:]:
        if not l or l[0] == '$':
            continue
        if l[0] == '#':
            t = int(l[1:])
        elif l[0] in 'bsr':
            v, _, n = l[1:].rpartition(' ')
            d.hist.setdefault(n, []).append((t, unesc(v) if l[0] == 's' else v))
        else:
            d.hist.setdefault(l[1:], []).append((t, l[0]))
    d.end = t
    return d


# ---------------------------------------------------------------- expectation
class Exp:
    """what must be in the dump"""
    def __init__(self):
        self.vars = {}      # path -> (kind, typename, [(t, v)], dir)
        self.end = 0

    def sig(self, scope, name, ty, hist, di=0):
        """hist: [(t, value)] starting at 0"""
        rows = {}
        for t, v in hist:
            self.end = max(self.end, t)
            for pre, n, kind, tn, x in ty.leaves(name, v):
                k = tuple(scope) + pre + (n,)
                r = rows.setdefault(k, (kind, tn, [], None if pre else di, di == 1 and len(pre) > 0))
                x = expect(kind, x)
                if r[2] and r[2][-1][0] == t:
                    r[2].pop()
                if not r[2] or r[2][-1][1] != x:
                    r[2].append((t, x))
        self.vars.update(rows)


recports = []


def compare(d, e, fmt, upto=None, only=None):
    bad = []
    want = {k: v for k, v in e.vars.items() if only is None or only(k)}
    for k in sorted(set(want) - set(d.vars)):
        if want[k][4]:
            recports.append('.'.join(k))
            continue
        bad.append('%s is missing' % '.'.join(k))
    for k in sorted(set(d.vars) - set(want)):
        bad.append('%s is not a signal of the design (or was excluded)' % '.'.join(k))
    for k in d.dup:
        bad.append('%s appears twice' % '.'.join(k))
    for k in sorted(set(want) & set(d.vars)):
        kind, tn, hist, di, _ = want[k]
        h, vt, size, vd, attr = d.vars[k]
        nm = '.'.join(k)
        wt = {'logic': 'logic', 'logicv': 'logic', 'int': 'integer', 'intv': 'integer', 'real': 'real'}.get(kind, 'string')
        if vt != wt:
            bad.append('%s has variable type %s instead of %s' % (nm, vt, wt))
        if tn and attr:
            if attr[1] != tn:
                bad.append('%s has type name %s instead of %s' % (nm, attr[1], tn))
            if attr[0] != SDT.get(tn, attr[0]):
                bad.append('%s has data type %d instead of %d' % (nm, attr[0], SDT[tn]))
        if vd is not None and di is not None and vd != di:
            bad.append('%s has direction %s instead of %s' % (nm, vd, di))
        got = []
        exp = [x for x in hist if upto is None or x[0] <= upto]
        raw = d.hist.get(h, [])
        at = dict()
        for t, s in raw:
            cur = None
            for tt, vv in exp:
                if tt <= t:
                    cur = vv
            if kind in ('logic', 'logicv', 'int', 'intv') and len(s) != size:
                # VCD may drop leading zeros
                bad.append('%s at %s fs: %d bits for a variable of %d' % (nm, t, len(s), size))
                break
            v = decode(kind, s, size, cur)
            if got and got[-1][0] == t:
                got.pop()
            if not got or got[-1][1] != v:
                got.append((t, v))
        if kind in ('logicv', 'enumv') and exp and exp[0][1] == '' and not got:
            continue
        if got != exp:
            bad.append('%s changed %s, the dump says %s' % (nm, exp[:6], got[:6]))
    return bad


def hists(vals, n):
    return list(itertools.product(vals, repeat=n))


def wave(ty, h, step=NS):
    return 'transport ' + ', '.join('%s after %d fs' % (ty.lit(v), step * (i + 1)) for i, v in enumerate(h[1:]))


class Design:
    def __init__(self, name):
        self.name = name
        self.pre, self.decl, self.stmts = [], [], []
        self.e = Exp()
        self.n = 0
        self.ents = {}

    def new(self, p='s'):
        self.n += 1
        return '%s%d' % (p, self.n)

    def signal(self, ty, h, split=False):
        s = self.new()
        self.decl.append('signal %s : %s := %s;' % (s, ty.ind, ty.lit(h[0])))
        hist = [(i * NS, v) for i, v in enumerate(h)]
        if len(h) > 1:
            if split:
                for sel, t, f in ty.subs():
                    if ' ' in sel:
                        continue
                    self.stmts.append('%s%s <= %s;' % (s, sel, wave(t, [f(v) for v in h])))
            else:
                self.stmts.append('%s <= %s;' % (s, wave(ty, h)))
        self.e.sig((self.name,), s, ty, hist)
        return s, hist

    def entity(self, ty, mode, body='', extra=''):
        k = (ty.ind, mode, body)
        if k not in self.ents:
            n = 'e%d' % len(self.ents)
            self.ents[k] = n
            self.pre.append(HEAD + 'use work.pk.all;\nentity %s is port (p : %s %s); end entity;\n'
                            'architecture a of %s is %s begin\n%s\nend architecture;\n' % (n, mode, ty.ind, n, extra, body))
        return self.ents[k]

    def text(self):
        return ('library ieee; use ieee.std_logic_1164.all; use ieee.numeric_std.all;\npackage pk is\n%send package;\n' % DECLS
                + ''.join(self.pre) + HEAD + 'use work.pk.all;\nentity %s is end entity;\narchitecture a of %s is\n%s\nbegin\n%s\nend architecture;\n'
                % (self.name, self.name, '\n'.join(self.decl), '\n'.join(self.stmts)))


def designs(thorough):
    out = []
    # all histories of scalars
    d = Design('sc')
    for t in SCALARS:
        for h in hists(t.vals[:3 if not thorough else 4], 4):
            d.signal(t, h)
        for h in hists(t.vals, 2):
            d.signal(t, h)
    out.append(d)
    d = Design('ve')
    for t in VECS + COMPS:
        for h in hists(t.vals, 3 if not thorough else 4):
            if len(t.vals) > 1 or len(h) == 3:
                d.signal(t, h if len(t.vals) > 1 else h[:1])
                if len(t.vals) > 1:
                    d.signal(t, h, True)
    out.append(d)
    # ports
    for part, (types, nsub) in enumerate([(SCALARS + VECS, 99), (COMPS, 99)]):
        d = Design('po%d' % part)
        for t in types:
            if len(t.vals) < 2 or getattr(t, 'n', 1) > 9:
                continue
            vs = t.vals
            for h in ([vs[0], vs[1], vs[-1]], [vs[1], vs[1], vs[0]]):
                for split in (False, True):
                    if split and not t.subs():
                        continue
                    s, hist = d.signal(t, h, split)
                    sels = [('', t, lambda v: v)] + t.subs()
                    # one more level
                    for sel, st, f in t.subs():
                        if st.record or (isinstance(st, (Vec, Arr)) and not isinstance(t, Vec)):
                            for s2, st2, f2 in st.subs():
                                sels.append((sel + s2, st2, lambda v, f=f, f2=f2: f2(f(v))))
                    for k, (sel, st, f) in enumerate(sels):
                        if split and k % 3:
                            continue
                        ent = d.entity(st, 'in')
                        u = d.new('u')
                        d.stmts.append('%s : entity work.%s port map (%s%s);' % (u, ent, s, sel))
                        d.e.sig((d.name, u), 'p', st, [(x, f(v)) for x, v in hist], 1)
        out.append(d)
    # nesting, blocks, generates, components, directions, unconstrained ports
    d = Design('ne')
    for t in [bit, integer, en, real, tim] + VECS + COMPS:
        if len(t.vals) < 2 or getattr(t, 'n', 1) > 9:
            continue
        vs = t.vals
        h = [vs[0], vs[1], vs[-1]]
        hist = [(i * NS, v) for i, v in enumerate(h)]
        # out port drives the signal
        o = d.entity(t, 'out', 'p <= %s;' % wave(t, h))
        # declared with the right initial value
        s = d.new()
        d.decl.append('signal %s : %s := %s;' % (s, t.ind, t.lit(h[0])))
        d.e.sig((d.name,), s, t, hist)
        oe = d.new('o')
        d.pre.append(HEAD + 'use work.pk.all;\nentity %s is port (p : out %s := %s); end entity;\narchitecture a of %s is begin p <= %s; end architecture;\n'
                     % (oe, t.ind, t.lit(h[0]), oe, wave(t, h)))
        u = d.new('u')
        d.stmts.append('%s : entity work.%s port map (p => %s);' % (u, oe, s))
        d.e.sig((d.name, u), 'p', t, hist, 2)
        # element-wise output
        for sel, st, f in t.subs():
            if ' ' in sel:
                continue
            sh = [f(v) for v in h]
            oe = d.new('o')
            d.pre.append(HEAD + 'use work.pk.all;\nentity %s is port (p : out %s := %s); end entity;\narchitecture a of %s is begin p <= %s; end architecture;\n'
                         % (oe, st.ind, st.lit(sh[0]), oe, wave(st, sh)))
        if t.subs():
            s2 = d.new()
            d.decl.append('signal %s : %s := %s;' % (s2, t.ind, t.lit(h[0])))
            d.e.sig((d.name,), s2, t, hist)
            base = d.n - 1 - sum(1 for x in t.subs() if ' ' not in x[0])
            k = 0
            for sel, st, f in t.subs():
                if ' ' in sel:
                    continue
                k += 1
                u = d.new('u')
                d.stmts.append('%s : entity work.o%d port map (p => %s%s);' % (u, base + k, s2, sel))
                d.e.sig((d.name, u), 'p', st, [(i * NS, f(v)) for i, v in enumerate(h)], 2)
        # nested: entity, block, generates, component
        subs = t.subs()[:1] + t.subs()[-1:]
        inner = d.entity(t, 'in')
        body = 'g : for i in 1 to 2 generate begin x : entity work.%s port map (p => p); end generate;\n' % inner
        decl = 'component %s is port (p : in %s); end component;\n' % (inner, t.ind)
        body += 'c : component %s port map (p => p);\n' % inner
        leaves = []
        for k, (sel, st, f) in enumerate(subs):
            i2 = d.entity(st, 'in')
            if 'component %s is' % i2 not in decl:
                decl += 'component %s is port (p : in %s); end component;\n' % (i2, st.ind)
            body += 'i%d : if true generate begin y : component %s port map (p => p%s); end generate;\n' % (k, i2, sel)
            leaves.append((k, st, f))
        bl = ('b : block signal z : %s := %s; port (p : in %s); port map (p => p); begin z <= transport p after 10 fs; '
              'w : entity work.%s port map (p => p); end block;\n')
        body += 'b : block is port (q : in %s); port map (q => p); signal z : %s := %s; begin z <= transport p after 10 fs; w : entity work.%s port map (p => q); end block;\n' % (
            t.ind, t.ind, t.lit(vs[0]), inner)
        m = d.entity(t, 'in', body, decl)
        for s, hh in [d.signal(t, h), d.signal(t, h[::-1], bool(t.subs()))]:
            u = d.new('u')
            d.stmts.append('%s : entity work.%s port map (p => %s);' % (u, m, s))
            p = (d.name, u)
            d.e.sig(p, 'p', t, hh, 1)
            for g in (1, 2):
                d.e.sig(p + ('g(%d)' % g, 'x'), 'p', t, hh, 1)
            d.e.sig(p + ('c',), 'p', t, hh, 1)
            d.e.sig(p + ('b',), 'q', t, hh, 1)
            d.e.sig(p + ('b', 'w'), 'p', t, hh, 1)
            d.e.sig(p + ('b',), 'z', t, [(0, vs[0])] + [(x + 10, v) for x, v in hh])
            for k, st, f in leaves:
                d.e.sig(p + ('i%d' % k, 'y'), 'p', st, [(x, f(v)) for x, v in hh], 1)
        # unconstrained port
        if isinstance(t, Vec):
            un = d.new('n')
            d.pre.append(HEAD + 'use work.pk.all;\nentity %s is port (p : in %s); end entity;\narchitecture a of %s is begin end architecture;\n' % (un, t.base, un))
            for sel, st, f in [('', t, lambda v: v)] + [x for x in t.subs() if ' ' in x[0]]:
                u = d.new('u')
                d.stmts.append('%s : entity work.%s port map (p => %s%s);' % (u, un, s, sel))
                d.e.sig((d.name, u), 'p', st, [(x, f(v)) for x, v in hh], 1)
    out.append(d)
    # values that exist for a delta cycle
    d = Design('de')
    for t in [bit, integer, en, real, tim, VECS[0], VECS[6], VECS[10], VECS[12], VECS[19], slvs, rec, recv]:
        for a in hists(t.vals[:2 if not thorough else 3], 3):
            for b in hists(t.vals[:2], 3):
                s = d.new()
                d.decl.append('signal %s : %s := %s;' % (s, t.ind, t.lit(t.vals[0])))
                w = ''
                for v in a:
                    w += '%s <= %s; wait for 0 ns; ' % (s, t.lit(v))
                w += 'wait for 1 ns; '
                for v in b:
                    w += '%s <= %s; wait for 0 ns; ' % (s, t.lit(v))
                d.stmts.append('process begin %swait; end process;' % w)
                hist = [(0, a[-1]), (NS, b[-1])]
                d.e.sig((d.name,), s, t, hist)
    out.append(d)
    # large times
    d = Design('ti')
    for t in [bit, integer, en, VECS[0], rec]:
        s = d.new()
        vs = t.vals
        d.decl.append('signal %s : %s := %s;' % (s, t.ind, t.lit(vs[0])))
        hist = [(0, vs[0])]
        ts = [1, 2, 1000, 2**31 - 1, 2**31, 2**32 - 1, 2**32, 2**32 + 1, 10**15, 2**53, 2**53 + 1, 2**62, 2**63 - 2]
        w = []
        for i, x in enumerate(ts):
            w.append('%s after %s' % (t.lit(vs[(i + 1) % 2]), '%d fs' % x if x < 2**31 else
                                      '(%d us + %d fs)' % (x // 10**9, x % 10**9) if x < 2**50 else
                                      '(%d sec + %d us + %d fs)' % (x // 10**15, x % 10**15 // 10**9, x % 10**9)))
            hist.append((x, vs[(i + 1) % 2]))
        d.stmts.append('%s <= transport %s;' % (s, ', '.join(w)))
        d.e.sig((d.name,), s, t, hist)
    out.append(d)
    return out


def tool(c):
    out = os.path.join(c.work, 'fstdump')
    p = subprocess.run(['gcc', '-w', '-O1', '-I' + c.src + '/thirdparty', '-o', out, TOOLS + '/fstdump.c',
                        c.bld + '/lib/libfst.a', c.bld + '/lib/libfastlz.a', '-lz', '-lpthread'],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        c.die('the decoder does not compile: ' + p.stdout.decode()[-500:])
    return out


ERR = re.compile(r'\*\* (Error|Fatal)|LLVM ERROR|Assertion|Caught signal|stack trace', re.I)


def body():
    c = vf.Check('P21', 'model_checking')
    c.build()
    fd = tool(c)
    cov = {'signals': 0, 'variables': 0, 'runs': 0, 'filters': 0, 'stop_times': 0}

    def readback(f, fmt):
        if fmt == 'vcd':
            return read_vcd(open(f, 'rb').read())
        r = vf.run([fd, f], cwd=c.work, timeout=120, mem_mb=4000)
        if r.rc != 0:
            return None
        return read_fst(r.out if isinstance(r.out, str) else r.out.decode('latin-1'))

    def run(d, dd, fmt, tag, args=()):
        f = os.path.join(dd, '%s.%s' % (tag, fmt))
        if os.path.exists(f):
            os.unlink(f)
        r = c.nvc(['-r', '--dump-arrays=1000', '--format=' + fmt, '--wave=' + f] + list(args) + [d.name], dd, std='2008', timeout=300)
        cov['runs'] += 1
        if not os.path.exists(f):
            return r, None
        return r, readback(f, fmt)

    def report(key, text, d, dd, bad):
        c.violation(key, '%s\n%s' % (text, '\n'.join(bad[:12])), {'t.vhd': d.text().encode('latin-1')})

    def prepare(d):
        dd = c.dir(d.name)
        open(os.path.join(dd, 't.vhd'), 'w', encoding='latin-1').write(d.text())
        r = c.nvc(['-M', '512m', '-a', 't.vhd', '-e', '--jit', d.name], dd, std='2008', timeout=300)
        if r.rc != 0:
            c.die('design %s is rejected: %s' % (d.name, r.out[-1500:]))
        return dd

    def one(d):
        dd = prepare(d)
        cov['signals'] += d.n
        cov['variables'] += len(d.e.vars)
        for fmt in ('fst', 'vcd'):
            r, x = run(d, dd, fmt, 'full')
            if x is None or r.rc != 0 or ERR.search(r.out):
                report('run:%s:%s' % (d.name, fmt), 'dumping the design %s (%s) failed: %s' % (d.name, fmt, r.out[-300:]), d, dd, [])
                continue
            bad = compare(x, d.e, fmt)
            if x.end != d.e.end:
                bad.append('the dump ends at %s fs, the simulation at %d fs' % (x.end, d.e.end))
            if bad:
                report('dump:%s:%s' % (d.name, fmt), '%d differences in the %s dump of design %s' % (len(bad), fmt, d.name), d, dd, bad)
    ds = designs(c.thorough)
    c.pmap(one, ds)

    # --- stop times and filters on a small design
    d = Design('fi')
    inner = 'signal ab, ba : bit; signal r : rec; begin ab <= transport \'1\' after 1 ns; ba <= transport p after 10 fs;'
    d.pre.append(HEAD + 'use work.pk.all;\nentity sub is port (p : in bit; x : in bit_vector(1 downto 0)); end entity;\narchitecture a of sub is %s end architecture;\n' % inner)
    d.decl += ['signal a, ab, b : bit; signal v : bit_vector(2 downto 0); signal AbC : rec := %s;' % rec.lit(rec.vals[0])]
    d.stmts += ["a <= transport '1' after 1 ns, '0' after 2 ns; ab <= transport '1' after 2 ns; b <= transport '1' after 3 ns;",
                'v <= transport "101" after 2 ns; abc <= transport %s after 3 ns;' % rec.lit(rec.vals[1])]
    bv3 = V('bit_vector', bit, 2, 'downto', 0, ['000', '101'])
    bv2 = V('bit_vector', bit, 1, 'downto', 0, ['00', '01'])
    T = ('fi',)
    ha = [(0, '0'), (NS, '1'), (2 * NS, '0')]
    d.e.sig(T, 'a', bit, ha)
    d.e.sig(T, 'ab', bit, [(0, '0'), (2 * NS, '1')])
    d.e.sig(T, 'b', bit, [(0, '0'), (3 * NS, '1')])
    d.e.sig(T, 'v', bv3, [(0, tuple('000')), (2 * NS, tuple('101'))])
    d.e.sig(T, 'abc', rec, [(0, rec.vals[0]), (3 * NS, rec.vals[1])])
    for u, sig in (('u', 'a'), ('u2', 'b')):
        d.stmts.append('%s : entity work.sub port map (%s, v(2 downto 1));' % (u, sig))
        hs = ha if sig == 'a' else [(0, '0'), (3 * NS, '1')]
        d.e.sig(T + (u,), 'p', bit, hs, 1)
        d.e.sig(T + (u,), 'x', bv2, [(0, tuple('00')), (2 * NS, tuple('10'))], 1)
        d.e.sig(T + (u,), 'ab', bit, [(0, '0'), (NS, '1')])
        d.e.sig(T + (u,), 'ba', bit, [(0, '0')] + [(t + 10, v) for t, v in hs if t > 0])
        d.e.sig(T + (u,), 'r', rec, [(0, (-2**31, ('U', 'U', 'U'), 'false'))])
    dd = prepare(d)

    def stop(j):
        fmt, t = j
        r, x = run(d, dd, fmt, 'stop%d' % t, ['--stop-time=%dfs' % t])
        if x is None or r.rc != 0:
            report('stop:%s' % fmt, 'stop time %d fs: %s' % (t, r.out[-300:]), d, dd, [])
            return
        bad = compare(x, d.e, fmt, t)
        last = max([y[0] for v in d.e.vars.values() for y in v[2] if y[0] <= t] or [0])
        if not (last <= x.end <= max(t, last)):
            bad.append('the dump ends at %s fs' % x.end)
        if bad:
            report('stop:%s:%d' % (fmt, t), 'with stop time %d fs the %s dump is wrong' % (t, fmt), d, dd, bad)
    times = [0, 1, NS - 1, NS, NS + 9, NS + 10, NS + 11, 2 * NS - 1, 2 * NS, 2 * NS + 10, 3 * NS - 1, 3 * NS, 3 * NS + 10, 4 * NS]
    jobs = [(f, t) for t in times for f in ('fst', 'vcd')]
    cov['stop_times'] = len(jobs)
    c.pmap(stop, jobs)

    pats = ['*', ':fi:a', ':fi:a*', '*b', ':fi:u:*', '*:ab', ':fi:*:*', ':fi:abc', ':fi:u*', '*x*']
    def rx(p):
        return re.compile('^' + '.*'.join(re.escape(x) for x in p.split('*')) + '$')
    sets = [x for k in range(0, 3) for x in itertools.combinations(pats, k)]
    small_ = [x for x in sets if len(x) < 2]
    conf = [(i, x) for i in sets for x in small_] + [(i, x) for i in small_ for x in sets if len(x) == 2]
    if not c.thorough:
        conf = [k for n, k in enumerate(conf) if len(k[0]) + len(k[1]) < 2 or n % 4 == 0]
    top = {}
    for k in d.e.vars:
        # path of the declared signal
        p = []
        for y in k:
            p.append(re.sub(r'\[.*', '', y))
        if 'abc' in p:
            p = p[:p.index('abc') + 1]
        elif 'r' in p:
            p = p[:p.index('r') + 1]
        top[k] = ':' + ':'.join(p)

    def filt(j):
        n, (inc, exc) = j
        ii, ee = [rx(p) for p in inc], [rx(p) for p in exc]
        only = lambda k: not any(q.match(top[k]) for q in ee) and (not ii or any(q.match(top[k]) for q in ii))
        if not any(only(k) for k in d.e.vars):
            return      # nothing to dump: not a valid FST file
        args = []
        mode = n % 3 if inc or exc else 0
        sub = os.path.join(dd, 'f%d' % n)
        if mode == 2:
            # patterns in files
            os.makedirs(sub)
            open(os.path.join(sub, 'fi.include'), 'w').write('# inc\n' + ''.join(' %s # x\n' % p for p in inc))
            open(os.path.join(sub, 'fi.exclude'), 'w').write(''.join('%s\n\n' % p for p in exc))
        else:
            args = ['--include=' + p for p in inc] + ['--exclude=' + p for p in exc]
        f = os.path.join(dd, 'f%d.fst' % n)
        r = c.nvc(['-r', '--wave=' + f] + args + ['fi'], sub if mode == 2 else dd, std='2008', work=dd + '/work', timeout=60)
        cov['runs'] += 1
        cov['filters'] += 1
        x = readback(f, 'fst') if os.path.exists(f) else None
        if x is None or r.rc != 0:
            report('filter-run', 'include %s exclude %s: %s' % (inc, exc, r.out[-300:]), d, dd, [])
            return
        bad = compare(x, d.e, 'fst', None, only)
        os.unlink(f)
        if bad:
            report('filter:%s:%s' % (inc, exc), 'with include patterns %s and exclude patterns %s%s' % (inc, exc, ' read from files' if mode == 2 else ''), d, dd, bad)
    c.pmap(filt, list(enumerate(conf)))

    # --- limits of --dump-arrays
    d2 = Design('li')
    ref = []
    for n in (1, 2, 3, 4):
        t = V('integer_vector', integer, 1, 'to', n, [list(range(n)), list(range(1, n + 1))])
        s, _ = d2.signal(t, [t.vals[0], t.vals[1]])
        ref.append((s, n))
    s, _ = d2.signal(slvs, slvs.vals)
    ref.append((s, 2))
    s, _ = d2.signal(recv, recv.vals)
    ref.append((s, 2))
    s, _ = d2.signal(VECS[2], VECS[2].vals)
    s, _ = d2.signal(rec, rec.vals)
    lim = dict(ref)
    dd2 = prepare(d2)
    for l in (None, 1, 2, 3, 4, 5):
        f = os.path.join(dd2, 'l.fst')
        r = c.nvc(['-r', '--wave=' + f] + ([] if l is None else ['--dump-arrays=%d' % l]) + ['li'], dd2, std='2008', timeout=60)
        x = readback(f, 'fst') if r.rc == 0 else None
        cov['runs'] += 1
        if x is None:
            report('limit-run', r.out[-300:], d2, dd2, [])
            continue
        ok = lambda k: lim.get(re.sub(r'\[.*', '', k[1]), 0) <= (l or 0)
        bad = compare(x, d2.e, 'fst', None, ok)
        if bad:
            report('limit:%s' % l, 'with --dump-arrays=%s' % l, d2, dd2, bad)
    if recports:
        c.violation('record-port', 'input ports with a record type (or an array of records) that are connected directly to a '
                    'signal are not in the dump, e.g. ' + recports[0], {})
    c.finish({'signal_histories': cov['signals'], 'states': cov['variables'], 'executions': cov['runs'],
              'filter_configurations': cov['filters'], 'stop_times': cov['stop_times'],
              'designs': len(ds) + 2},
             ['the FST file is read with the reader library that is part of the sources; the VCD file is read by an own parser',
              'names are compared in lower case; enumeration identifiers and units without regard to case'])


if __name__ == '__main__':
    vf.main(body) if hasattr(vf, 'main') else body()
