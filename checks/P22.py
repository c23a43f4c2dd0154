#!/usr/bin/env python3
"""P22: coverage counts equal actual executions and merge additively.

programs  every program of a small statement language (all nestings of two
          compound statements, all conditions, in processes, functions and
          procedures) is run on all inputs; an interpreter gives the exact
          count of every statement, branch and expression bin, and the set of
          bins that must exist
toggles   every history of a std_logic object over a set of values, for every
          combination of the toggle options; vectors with whole, split and
          element drivers; ports connected to every part of a signal
states    every history of signals of enumerated types and subtypes
merge     three databases merged in all orders and groupings
report    the summary of the HTML report agrees with the bins
"""
import os, re, sys, itertools, html
import xml.etree.ElementTree as ET
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

MAXI = 2**31 - 1


# ---------------------------------------------------------------- expressions
# (text, eval(env) -> value, bins(env, add)) ; bins are listed in the order in
# which nvc numbers them
class Ex:
    def __init__(self, text, ev, bins, calls=()):
        self.text, self.ev, self.bins, self.calls = text, ev, bins, calls
        # bins: list of (name, fn(env) -> count contribution)


def v(name, txt=None):
    return Ex(txt or name, lambda e: e[name], [])


def cmp_(op, x, n):
    import operator
    f = {'=': operator.eq, '/=': operator.ne, '<': operator.lt, '<=': operator.le, '>': operator.gt, '>=': operator.ge}[op]
    ev = lambda e: f(e[x], n)
    return Ex('%s %s %d' % (x, op, n), ev, [('FALSE', lambda e: not ev(e)), ('TRUE', lambda e: ev(e))])


def not_(a):
    ev = lambda e: not a.ev(e)
    return Ex('not (%s)' % a.text, ev, a.bins + [('FALSE', lambda e: not ev(e)), ('TRUE', lambda e: ev(e))], a.calls)


LOG = {'and': (lambda a, b: a and b, ['01', '10', '11']), 'nand': (lambda a, b: not (a and b), ['01', '10', '11']),
       'or': (lambda a, b: a or b, ['00', '01', '10']), 'nor': (lambda a, b: not (a or b), ['00', '01', '10']),
       'xor': (lambda a, b: a != b, ['00', '01', '10', '11']), 'xnor': (lambda a, b: a == b, ['00', '01', '10', '11'])}


def log_(op, a, b):
    f, names = LOG[op]
    ev = lambda e: f(a.ev(e), b.ev(e))
    # the right operand is evaluated only when needed if it has calls
    lazy = bool(b.calls) and op in ('and', 'nand', 'or', 'nor')
    def done(e):
        return not lazy or a.ev(e) == (op in ('and', 'nand'))
    bb = b.bins
    if lazy:
        bb = [(n, (lambda g: lambda e: done(e) and g(e))(g)) for n, g in bb]
    own = [('%s_%s' % (n[0], n[1]), (lambda n: lambda e: done(e) and a.ev(e) == (n[0] == '1') and b.ev(e) == (n[1] == '1'))(n)) for n in names]
    calls = list(a.calls) + [(n, (lambda g: lambda e: done(e) and g(e))(g)) for n, g in b.calls]
    return Ex('(%s) %s (%s)' % (a.text, op, b.text), ev, a.bins + bb + own, tuple(calls))


def call_(name, arg):
    return Ex('%s(%s)' % (name, arg), lambda e: e[arg], [], (('FN', lambda e: 1),))


def conditions():
    c = []
    for op in ('=', '/=', '<', '<=', '>', '>='):
        c.append(cmp_(op, 'a', 1))
    b, d = v('b'), v('d')
    c.append(b)
    c.append(not_(b))
    for op in LOG:
        c.append(log_(op, b, d))
    for op in LOG:
        c.append(log_(op, b, call_('ident', 'd')))
        c.append(log_(op, call_('ident', 'b'), d))
    for o1 in LOG:
        for o2 in LOG:
            c.append(log_(o1, log_(o2, b, d), cmp_('=', 'a', 1)))
    c.append(log_('and', cmp_('>', 'a', 0), not_(d)))
    c.append(log_('or', cmp_('=', 'a', 2), log_('and', call_('ident', 'b'), call_('ident', 'd'))))
    c.append(log_('and', call_('ident', 'b'), log_('nor', d, call_('ident', 'b'))))
    c.append(not_(log_('nand', call_('ident', 'd'), cmp_('<', 'a', 2))))
    return c


# ---------------------------------------------------------------- statements
class Exit(Exception): pass
class Next(Exception): pass
class Ret(Exception): pass


class Prog:
    """static walk assigns names, then the program is executed"""
    def __init__(self, name, stmts, ctx):
        self.name, self.stmts, self.ctx = name, stmts, ctx
        self.exp = {}
        self.nl = 0
        self.dead = self.ends = self.tail = False
        self.optional = set()
    def bump(self, k, n=1):
        self.exp[k] = self.exp[k] + n


class Sc:
    """a coverage scope: hierarchy and the counter of expression items"""
    def __init__(self, hier):
        self.hier, self.ne, self.nb = hier, 0, 0
    def items(self, p, e):
        l = []
        for n, g in e.bins:
            k = ('expression', '%s._E%d.BIN_%s' % (self.hier, self.ne, n))
            self.ne += 1
            p.exp.setdefault(k, 0)
            l.append((k, g))
        for n, g in e.calls:
            l.append((('call', p.name), g))
            p.exp.setdefault(('call', p.name), 0)
        return l
    def branch(self, p, which):
        ks = [('branch', '%s.BIN_%s' % (self.hier, w)) for w in which]
        for k in ks:
            p.exp.setdefault(k, 0)
        return ks


def ev(p, e, items, env):
    for k, g in items:
        p.bump(k, int(bool(g(env))))
    return e.ev(env)


def newlabel(p, pre):
    p.nl += 1
    return '%s%d' % (pre, p.nl)


def stmt_scope(p, lab, parent):
    s = Sc('%s.%s' % (parent.hier, lab.upper()))
    s.k = ('statement', s.hier)
    p.exp.setdefault(s.k, 0)
    return s


# each statement: prepare(p, parent) -> (text lines, exec(env))
def seq(p, parent, stmts):
    old = p.dead
    try:
        return seq_(p, parent, stmts)
    finally:
        p.tail = p.dead
        p.dead = old
        p.ends = False


def seq_(p, parent, stmts):
    lines, ex = [], []
    for s in stmts:
        before = set(p.exp)
        p.ends = False
        l, f = s(p, parent)
        if p.dead:
            # code that can never be reached need not have bins
            p.optional |= set(p.exp) - before
        if p.ends:
            p.dead = True
        lines += ['  ' + x for x in l]
        ex.append(f)
    def run(env):
        for f in ex:
            f(env)
    return lines, run


def assign(p, parent):
    lab = newlabel(p, 'a')
    s = stmt_scope(p, lab, parent)
    def run(env):
        p.bump(s.k)
        env['x'] += 1
    return ['%s: x := x + 1;' % lab], run


def bassign(e):
    def f(p, parent):
        lab = newlabel(p, 'e')
        s = stmt_scope(p, lab, parent)
        it = s.items(p, e)
        def run(env):
            p.bump(s.k)
            env['t'] = ev(p, e, it, env)
        return ['%s: t := %s;' % (lab, e.text)], run
    return f


def assert_(e):
    def f(p, parent):
        lab = newlabel(p, 'q')
        s = stmt_scope(p, lab, parent)
        it = s.items(p, e)
        def run(env):
            p.bump(s.k)
            ev(p, e, it, env)
        return ['%s: assert %s severity note;' % (lab, e.text)], run
    return f


def pcall(p, parent):
    lab = newlabel(p, 'c')
    s = stmt_scope(p, lab, parent)
    def run(env):
        p.bump(s.k)
        env['x'] += 1
    return ['%s: inc(x);' % lab], run


def null(p, parent):
    return ['null;'], lambda env: None


def if_(conds, bodies, els=None):
    def f(p, parent):
        lab = newlabel(p, 'i')
        s = stmt_scope(p, lab, parent)
        arms, lines = [], []
        for i, (c, b) in enumerate(zip(conds, bodies)):
            bs = Sc('%s._B%d' % (s.hier, i))
            it = bs.items(p, c)
            br = bs.branch(p, ['TRUE', 'FALSE'])
            l, r = seq(p, bs, b)
            lines += ['%s %s then' % (('%s: if' % lab) if i == 0 else 'elsif', c.text)] + l
            arms.append((c, it, br, r))
        er = None
        if els is not None:
            l, er = seq(p, Sc('%s._B%d' % (s.hier, len(conds))), els)
            lines += ['else'] + l
        lines.append('end if;')
        def run(env):
            p.bump(s.k)
            for c, it, br, r in arms:
                t = ev(p, c, it, env)
                p.bump(br[0 if t else 1])
                if t:
                    r(env)
                    return
            if er:
                er(env)
        return lines, run
    return f


def case_(sel, alts):
    """alts: list of (choices, body); choice = int | (lo, hi) | 'others'"""
    def f(p, parent):
        lab = newlabel(p, 'k')
        s = stmt_scope(p, lab, parent)
        # ranges are numbered first
        n, names = 0, {}
        for rng in (True, False):
            for i, (ch, b) in enumerate(alts):
                for j, c in enumerate(ch):
                    if isinstance(c, tuple) != rng:
                        continue
                    if c == 'others':
                        names[i, j] = '_B_OTHERS'
                    else:
                        names[i, j] = '_B%d' % n
                        n += 1
        lines, arms = ['%s: case %s is' % (lab, sel)], []
        for i, (ch, b) in enumerate(alts):
            ks = []
            for j, c in enumerate(ch):
                k = ('branch', '%s.%s.BIN_CHOICE' % (s.hier, names[i, j]))
                p.exp.setdefault(k, 0)
                ks.append((c, k))
            l, r = seq(p, s, b)
            t = ' | '.join('%d to %d' % c if isinstance(c, tuple) else str(c) for c in ch)
            lines += ['  when %s =>' % t] + l
            arms.append((ks, r))
        lines.append('end case;')
        def run(env):
            p.bump(s.k)
            x = env[sel]
            for others in (False, True):
                for ks, r in arms:
                    for c, k in ks:
                        hit = others if c == 'others' else (not others and (c[0] <= x <= c[1] if isinstance(c, tuple) else c == x))
                        if hit:
                            p.bump(k)
                            r(env)
                            return
        return lines, run
    return f


def loopbody(r, env):
    try:
        r(env)
    except Next:
        pass


def for_(lo, hi, body):
    def f(p, parent):
        lab = newlabel(p, 'f')
        s = stmt_scope(p, lab, parent)
        l, r = seq(p, s, body)
        def run(env):
            p.bump(s.k)
            try:
                for _ in range(lo if isinstance(lo, int) else env[lo], (hi if isinstance(hi, int) else env[hi]) + 1):
                    loopbody(r, env)
            except Exit:
                pass
        return ['%s: for z in %s to %s loop' % (lab, lo, hi)] + l + ['end loop;'], run
    return f


def while_(e, body):
    """the body is preceded by an increment of a"""
    def f(p, parent):
        lab = newlabel(p, 'w')
        s = stmt_scope(p, lab, parent)
        it = s.items(p, e)
        br = s.branch(p, ['TRUE', 'FALSE'])
        lab2 = newlabel(p, 'a')
        s2 = stmt_scope(p, lab2, s)
        l, r = seq(p, s, body)
        def run(env):
            p.bump(s.k)
            try:
                while True:
                    t = ev(p, e, it, env)
                    p.bump(br[0 if t else 1])
                    if not t:
                        return
                    p.bump(s2.k)
                    env['a'] += 1
                    loopbody(r, env)
            except Exit:
                pass
        return ['%s: while %s loop' % (lab, e.text), '  %s: a := a + 1;' % lab2] + l + ['end loop;'], run
    return f


def loop_(body):
    """left by the exit statement after the body at the latest"""
    def f(p, parent):
        lab = newlabel(p, 'l')
        s = stmt_scope(p, lab, parent)
        lab2 = newlabel(p, 'a')
        s2 = stmt_scope(p, lab2, s)
        ex, exr = exit_(cmp_('>', 'a', 2))(p, s)
        l, r = seq(p, s, body)
        def run(env):
            p.bump(s.k)
            try:
                while True:
                    p.bump(s2.k)
                    env['a'] += 1
                    exr(env)
                    loopbody(r, env)
            except Exit:
                pass
        return ['%s: loop' % lab, '  %s: a := a + 1;' % lab2] + ['  ' + x for x in ex] + l + ['end loop;'], run
    return f


def ctl(word, exc):
    def mk(e):
        def f(p, parent):
            lab = newlabel(p, 'n')
            s = stmt_scope(p, lab, parent)
            if e is None:
                def run(env):
                    p.bump(s.k)
                    raise exc()
                p.ends = True
                return ['%s: %s;' % (lab, word)], run
            it = s.items(p, e)
            br = s.branch(p, ['TRUE', 'FALSE'])
            def run(env):
                p.bump(s.k)
                t = ev(p, e, it, env)
                p.bump(br[0 if t else 1])
                if t:
                    raise exc()
            return ['%s: %s when %s;' % (lab, word, e.text)], run
        return f
    return mk


exit_ = ctl('exit', Exit)
next_ = ctl('next', Next)


def return_(p, parent):
    if p.ctx == 'process':
        return assign(p, parent)
    lab = newlabel(p, 'r')
    s = stmt_scope(p, lab, parent)
    p.ends = True
    def run(env):
        p.bump(s.k)
        raise Ret()
    return ['%s: return%s;' % (lab, ' x' if p.ctx == 'function' else '')], run


def wait_(p, parent):
    if p.ctx != 'process':
        return pcall(p, parent)
    lab = newlabel(p, 'w')
    s = stmt_scope(p, lab, parent)
    def run(env):
        p.bump(s.k)
    return ['%s: wait for 0 ns;' % lab], run


A1 = cmp_('=', 'a', 1)
B = v('b')
D = v('d')
AND = log_('and', B, D)

LEAVES = [assign, null, pcall, wait_, return_, bassign(AND), assert_(log_('or', B, cmp_('<', 'a', 2)))]
LEAVES_LOOP = LEAVES + [exit_(B), next_(A1), exit_(None), next_(None)]


def compounds(body):
    """every compound statement with the given inner statement(s)"""
    b = [body]
    yield 'if', False, if_([B], [b])
    yield 'ifelse', False, if_([A1], [[assign]], b)
    yield 'elsif', False, if_([A1, B], [[assign], b])
    yield 'elsif2', False, if_([B, AND], [b, [null]], [assign])
    yield 'case', False, case_('a', [([0], b), ([1, 2], [assign]), (['others'], [null])])
    yield 'case2', False, case_('a', [([1], [null]), ([0, 2], b), (['others'], b)])
    yield 'case3', False, case_('a', [([(0, 1)], b), ([2, 3], [assign]), (['others'], [assign])])
    yield 'case4', False, case_('a', [([0, (1, 2)], b), (['others'], [null])])
    yield 'case5', False, case_('a', [([(0, 0), (2, 3)], b), ([1], b), (['others'], [assign])])
    yield 'for', True, for_(1, 2, b + [assign])
    yield 'for0', True, for_(1, 'a', b)
    yield 'while', True, while_(cmp_('<', 'a', 2), b)
    yield 'loop', True, loop_(b + [assign])


def programs(thorough):
    for e in conditions():
        yield [bassign(e)]
        yield [if_([e], [[assign]])]
        yield [if_([A1, e], [[null], [assign]], [assign])]
        yield [for_(0, 1, [next_(e), assign])]
        yield [assert_(e)]
    flat = []
    for l in LEAVES:
        flat += [(l, False)]
    for l in LEAVES_LOOP[len(LEAVES):]:
        flat += [(l, True)]
    inner = []
    for l, needs in flat:
        yield [l] if not needs else [for_(0, 1, [l, assign])]
        for n, isloop, c in compounds(l):
            if needs and not isloop:
                inner.append((c, True))
                continue
            inner.append((c, False))
            yield [c, assign]
    k = 0
    for c1, needs in inner:
        for n, isloop, c2 in compounds(c1):
            if needs and not isloop:
                continue
            k += 1
            if not thorough and k % 3:
                continue
            yield [c2, assign]


INPUTS = [(a, b, d) for a in (0, 1, 2) for b in (False, True) for d in (False, True)]


def render(progs):
    """one process per program"""
    o = ['entity t is end entity;', 'architecture x of t is',
         '  function ident (w : boolean) return boolean is', '  begin', '    rr: return w;', '  end function;',
         '  procedure inc (n : inout integer) is', '  begin', '    ri: n := n + 1;', '  end procedure;', 'begin']
    exp = {}
    for p in progs:
        top = 'WORK.T.%s' % p.name.upper()
        o.append('  %s: process' % p.name)
        o.append('    variable a, x : integer; variable b, d, t : boolean;')
        host = Sc(top)
        if p.ctx == 'process':
            call = None
            inner = Sc('%s.L0.L1.L2' % top)
        else:
            inner = Sc('%s.SP' % top)
        lines, run = seq(p, inner, p.stmts)
        if p.ctx == 'function':
            o.append('    impure function sp return integer is')
            o.append('      variable z : integer;')
            o.append('    begin')
            o += ['    ' + l for l in lines]
            o.append('      rend: return x;')
            o.append('    end function;')
            p.exp[('statement', inner.hier + '.REND')] = 0
            if p.tail:
                p.optional.add(('statement', inner.hier + '.REND'))
        elif p.ctx == 'procedure':
            o.append('    procedure sp is')
            o.append('    begin')
            o += ['    ' + l for l in lines]
            o.append('    end procedure;')
        o.append('  begin')
        o.append('    l0: for ia in 0 to 2 loop l1: for ib in false to true loop l2: for id in false to true loop')
        o.append('      s1: a := ia; s2: b := ib; s3: d := id; s4: x := 0; s5: t := false;')
        if p.ctx == 'process':
            o += ['    ' + l for l in lines]
        elif p.ctx == 'function':
            o.append('      s6: x := sp;')
        else:
            o.append('      s6: sp;')
        o.append('    end loop; end loop; end loop;')
        o.append('    s9: wait;')
        o.append('  end process;')
        for env in INPUTS:
            e = dict(a=env[0], b=env[1], d=env[2], x=0, t=False)
            try:
                run(e)
                if p.ctx == 'function':
                    p.bump(('statement', inner.hier + '.REND'))
            except Ret:
                pass
        n = len(INPUTS)
        exp.update(p.exp)
        exp[('statement', top + '.L0')] = 1
        exp[('statement', top + '.L0.L1')] = 3
        exp[('statement', top + '.L0.L1.L2')] = 6
        for i in range(1, 6 if p.ctx == 'process' else 7):
            exp[('statement', '%s.L0.L1.L2.S%d' % (top, i))] = n
        exp[('statement', top + '.S9')] = 1
    o.append('end architecture;')
    calls = sum(n for k, n in list(exp.items()) if k[0] == 'call')
    exp = {k: n for k, n in exp.items() if k[0] != 'call'}
    opt = set().union(*[p.optional for p in progs])
    if calls:
        exp[('statement', 'WORK.T.IDENT.RR')] = calls
    return '\n'.join(o) + '\n', exp, opt


# ---------------------------------------------------------------- running
class Runner:
    def __init__(self, c):
        self.c = c
        self.runs = self.bins = 0

    def go(self, name, text, top, opts='all', std='2008', keep=False, dbs=None, pre=()):
        c = self.c
        d = c.dir(name)
        vf_write(d, 'd.vhd', text)
        db = 'x.db'
        r = c.nvc(['-a', 'd.vhd', '-e', '--jit', '--cover=' + opts, '--cover-file=' + db] + list(pre) + [top, '-r'], d, std=std,
                  mem_mb=8000, timeout=600)
        self.runs += 1
        if r.rc != 0 or 'rror:' in r.out or 'atal:' in r.out:
            return d, None, r
        return d, self.export(d, db), r

    def export(self, d, db):
        c = self.c
        x = db + '.xml'
        r = c.nvc(['--cover-export', '--format=xml', '-o', x, db], d, timeout=300)
        if r.rc != 0:
            c.violation('export:' + os.path.basename(d), 'the coverage database could not be exported: ' + r.out[-300:], {})
            return {}
        got = {}
        for e in ET.parse(os.path.join(d, x)).iter():
            if e.get('data') is not None:
                k = (e.tag, e.get('hier'))
                got[k] = got.get(k, 0) + int(e.get('data'))
        self.bins += len(got)
        return got


def vf_write(d, n, t):
    with open(os.path.join(d, n), 'w', encoding='latin-1') as f:
        f.write(t)


def diff(got, exp, only=None):
    """first differences"""
    out = []
    for k in sorted(set(got) | set(exp)):
        if only and not only(k):
            continue
        a, b = got.get(k), exp.get(k)
        if a != b:
            out.append('%s %s: %s, expected %s' % (k[0], k[1], 'no bin' if a is None else a, 'no bin' if b is None else b))
    return out


def check_programs(c, R):
    progs = []
    i = 0
    for st in programs(c.thorough):
        for ctx in ('process', 'function', 'procedure'):
            if not c.thorough and ctx != 'process' and (i + len(ctx)) % 2:
                continue
            progs.append((st, ctx))
        i += 1
    c.log('programs: %d' % len(progs))
    size = 150
    chunks = [progs[j:j + size] for j in range(0, len(progs), size)]

    def job(a):
        n, ch = a
        ps = [Prog('p%d' % k, st, ctx) for k, (st, ctx) in enumerate(ch)]
        text, exp, opt = render(ps)
        d, got, r = R.go('prog%d' % n, text, 't', 'statement,branch,expression')
        if got is None:
            c.violation('prog:run:%d' % n, 'covered program does not run: ' + r.out[-400:], {'d.vhd': text})
            return 0
        df = diff(got, exp, lambda k: not (k in opt and k not in got) and not k[1].startswith('WORK.T.INC'))
        seen = set()
        for x in df:
            m = re.match(r'\w+ WORK\.T\.(\w+)', x)
            if m.group(1) in seen:
                continue
            seen.add(m.group(1))
            body = ''
            if m.group(1).startswith('P'):
                k = int(m.group(1)[1:])
                t1 = render([Prog('p0', ch[k][0], ch[k][1])])[0]
                body = t1
            c.violation('prog:%d:%s' % (n, m.group(1)), 'wrong coverage count: ' + x, {'d.vhd': body or text})
        return len(ps)
    return sum(c.pmap(job, list(enumerate(chunks))))


# ---------------------------------------------------------------- other
def check_misc(c, R):
    """logical operators of std_logic on all operands, case statements on
    arrays, concurrent assignments, PSL cover directives"""
    n = 0
    exp, body, decl = {}, [], []
    U = 'UX01ZWLH-'
    for op in LOG:
        for form in ('var', 'conc'):
            lab = 'x%s%s' % (op, form)
            names = LOG[op][1]
            if form == 'var':
                body.append("%s: process variable r : std_ulogic; begin l0: for i in std_ulogic loop l1: for j in std_ulogic loop s: r := i %s j; "
                            "end loop; end loop; e: wait; end process;" % (lab, op))
                h = 'WORK.T.%s.' % lab.upper()
                exp.update({('statement', h + 'L0'): 1, ('statement', h + 'L0.L1'): 9, ('statement', h + 'L0.L1.S'): 81, ('statement', h + 'E'): 1})
                for k, x in enumerate(names):
                    exp[('expression', h + 'L0.L1.S._E%d.BIN_%s_%s' % (k, x[0], x[1]))] = 1
            else:
                seqs = [(a, b) for a in '01UZ' for b in '10X']
                decl.append("signal a%s, b%s, r%s : std_logic := '0';" % (lab, lab, lab))
                body.append("%s: r%s <= a%s %s b%s;" % (lab, lab, lab, op, lab))
                body.append("a%s <= %s; b%s <= %s;" % (lab, ', '.join("'%s' after %d ns" % (a, k + 1) for k, (a, b) in enumerate(seqs)),
                                                      lab, ', '.join("'%s' after %d ns" % (b, k + 1) for k, (a, b) in enumerate(seqs))))
                vals = [('0', '0')]
                for q in seqs:
                    if q != vals[-1]:
                        vals.append(q)
                h = 'WORK.T.%s' % lab.upper()
                exp[('statement', h + '._S0')] = len(vals)
                for k, x in enumerate(names):
                    exp[('expression', h + '._S0._E%d.BIN_%s_%s' % (k, x[0], x[1]))] = vals.count((x[0], x[1]))
            n += 1
    # case on arrays
    def casep(lab, ty, width, vals, alts):
        """vals: all values tried; alts: list of lists of values, then others"""
        nonlocal n
        n += 1
        L = lab.upper()
        h = 'WORK.T.%s' % L
        body.append('%s: process type arr is array (natural range <>) of %s; constant tab : arr(0 to %d) := (%s); variable v : %s; variable w : integer; begin l0: for i in tab\'range loop a: v := tab(i); k: case v is' % (
            lab, ty, len(vals) - 1, ', '.join('%d => "%s"' % (i, v) for i, v in enumerate(vals)), ty))
        cnt = {}
        for v in vals:
            hit = [(i, j) for i, al in enumerate(alts) for j, x in enumerate(al) if x == v]
            cnt[hit[0] if hit else None] = cnt.get(hit[0] if hit else None, 0) + 1
        num = 0
        for i, al in enumerate(alts):
            body.append('when %s => t%d: w := i;' % (' | '.join('"%s"' % x for x in al), i))
            for j, x in enumerate(al):
                exp[('branch', h + '.L0.K._B%d.BIN_CHOICE' % num)] = cnt.get((i, j), 0)
                exp[('statement', h + '.L0.K._B%d.T%d' % (num, i))] = cnt.get((i, j), 0)
                num += 1
        body.append('when others => tz: w := i;')
        exp[('branch', h + '.L0.K._B_OTHERS.BIN_CHOICE')] = cnt.get(None, 0)
        exp[('statement', h + '.L0.K._B_OTHERS.TZ')] = cnt.get(None, 0)
        body.append('end case; end loop; e: wait; end process;')
        exp.update({('statement', h + '.L0'): 1, ('statement', h + '.L0.A'): len(vals), ('statement', h + '.L0.K'): len(vals), ('statement', h + '.E'): 1})
    bits = lambda w: [''.join(x) for x in itertools.product('01', repeat=w)]
    q = 0
    for w in (1, 2, 3):
        for sz in (1, 2, 3):
            for st in range(2):
                b = bits(w)
                al = [b[i:i + sz] for i in range(0, len(b) - st, sz)]
                al = al[:max(1, len(al) - st)]
                casep('cb%d' % q, 'bit_vector(%d downto 0)' % (w - 1), w, b + b[:3], al)
                q += 1
    sl = [''.join(x) for x in itertools.product('01XZ', repeat=2)]
    for sz in (1, 3):
        casep('cs%d' % sz, 'std_logic_vector(1 to 2)', 2, sl + ['U-', 'HL', '01'], [sl[i:i + sz] for i in range(0, 12, sz)])
    # long strings: the choices are found by hashing and many collide
    for w, cnt in ((9, 12), (12, 40), (17, 70)):
        ss = [('%0*d' % (w, i * 7919 % 10**w)) for i in range(cnt)] + ['a' * w, 'b' * w, ('ab' * w)[:w], ('ba' * w)[:w]]
        for sz in (1, 2):
            casep('ct%d_%d' % (w, sz), 'string(1 to %d)' % w, w, ss + ss[::3] + ['?' * w], [ss[i:i + sz] for i in range(0, len(ss) - 2, sz)])
    bv = ['{:065b}'.format(1 << i) for i in range(65)] + ['{:065b}'.format((1 << 65) - 1 - (3 << i)) for i in range(20)]
    casep('cv', 'bit_vector(64 downto 0)', 65, bv + bv[:5], [[x] for x in bv[:-3]])
    # concurrent conditional and selected assignments
    seqs = [(a, b) for a in range(4) for b in (1, 0)]
    decl.append('signal ca : integer := 0; signal cb : boolean := false; signal co, cp, cq : integer;')
    body.append('ca <= %s; cb <= %s;' % (', '.join('%d after %d ns' % (a, k + 1) for k, (a, b) in enumerate(seqs)),
                                         ', '.join('%s after %d ns' % (bool(b), k + 1) for k, (a, b) in enumerate(seqs))))
    body.append('m1: co <= 1 when ca = 1 else 2 when cb else 3;')
    body.append('m2: with ca select cp <= 1 when 0, 2 when 1 | 3, 3 when others;')
    vals = [(0, 0)] + [s for s in seqs]
    e1 = [x for k, x in enumerate(vals) if k == 0 or x != vals[k - 1]]
    e2 = [x for k, x in enumerate(vals) if k == 0 or x[0] != vals[k - 1][0]]
    h = 'WORK.T.M1.'
    exp2 = {'branch': sorted([sum(a == 1 for a, b in e1), sum(a != 1 for a, b in e1), sum(a != 1 and b for a, b in e1), sum(a != 1 and not b for a, b in e1)])}
    sel = sorted([sum(a == 0 for a, b in e2), sum(a == 1 for a, b in e2), sum(a == 3 for a, b in e2), sum(a == 2 for a, b in e2)])
    text = HDR + 'entity t is end entity;\narchitecture a of t is\n' + '\n'.join(decl) + '\nbegin\n' + '\n'.join(body) + '\nend architecture;\n'
    d, got, r = R.go('misc', text, 't', 'statement,branch,expression')
    if got is None:
        c.violation('misc:run', 'does not run: ' + r.out[-300:], {'d.vhd': text})
        return 0
    for x in diff(got, exp, lambda k: not re.match(r'WORK\.T\.(M\d|_P\d)', k[1]))[:8]:
        c.violation('misc:' + x.split(':')[0], 'coverage count ' + x, {'d.vhd': text})
    for lab, e in (('M1', exp2['branch']), ('M2', sel)):
        g = sorted(x for k, x in got.items() if k[0] == 'branch' and k[1].startswith('WORK.T.%s.' % lab))
        if g != e:
            c.violation('misc:' + lab, 'branch counts of the concurrent assignment %s are %s, expected %s' % (lab, g, e), {'d.vhd': text})
    return n + 2


# ---------------------------------------------------------------- toggles
OPTS = ['', 'count-from-undefined', 'count-from-to-z', 'count-from-undefined,count-from-to-z']


def tog(o, n, opt):
    """(0->1, 1->0) increments for a change of value"""
    if o == n:
        return (0, 0)
    if (o, n) == ('0', '1'):
        return (1, 0)
    if (o, n) == ('1', '0'):
        return (0, 1)
    if 'undefined' in opt and o in 'UX' and n in '01':
        return (1, 0) if n == '1' else (0, 1)
    if 'to-z' in opt:
        if (o, n) in (('0', 'Z'), ('Z', '1')):
            return (1, 0)
        if (o, n) in (('1', 'Z'), ('Z', '0')):
            return (0, 1)
    return (0, 0)


def hist_counts(h, opt):
    a = b = 0
    for o, n in zip(h, h[1:]):
        x, y = tog(o, n, opt)
        a, b = a + x, b + y
    return a, b


def recounts(parts, hists, opt):
    """counts of the elements of a signal whose parts have separate drivers when
    every event of any part is taken as a change of each element from its last value"""
    n = max(len(h) for h in hists)
    at = lambda e, t: hists[e][min(t, len(hists[e]) - 1)]
    last = [h[0] for h in hists]
    out = [[0, 0] for _ in hists]
    for t in range(1, n):
        hit = [p for p in parts if any(at(e, t) != at(e, t - 1) for e in range(*p))]
        for p in hit:
            for e in range(*p):
                last[e] = at(e, t - 1)
        if hit:
            for e in range(len(hists)):
                x, y = tog(last[e], at(e, t), opt)
                out[e][0] += x
                out[e][1] += y
    return out


def put(exp, hier, cnt):
    exp[('toggle', hier + '.BIN_0_TO_1')] = cnt[0]
    exp[('toggle', hier + '.BIN_1_TO_0')] = cnt[1]


HDR = 'library ieee; use ieee.std_logic_1164.all;\n'


def check_scalar_toggles(c, R):
    hs = [h for h in itertools.product('UX01ZWLH-', repeat=2)]
    hs += [h for h in itertools.product('UX01Z', repeat=4 if c.thorough else 3)]
    hs += [h for h in itertools.product('01', repeat=7 if c.thorough else 5)]
    cases = []
    for i, h in enumerate(hs):
        cases.append((h, ['std_logic', 'std_ulogic', 'X01Z' if set(h) <= set('X01Z') else 'std_logic', 'UX01'][i % 3], i % 2))
    o = [HDR + 'entity t is end entity;', 'architecture a of t is']
    b = []
    for i, (h, ty, how) in enumerate(cases):
        o.append("  signal s%d : %s := '%s';" % (i, ty, h[0]))
        if how == 0:
            b.append('  s%d <= %s;' % (i, ', '.join("'%s' after %d ns" % (x, k + 1) for k, x in enumerate(h[1:]))))
        else:
            b.append('  process begin ' + ''.join("wait for 0 ns; s%d <= '%s'; " % (i, x) for x in h[1:]) + 'wait; end process;')
    text = '\n'.join(o + ['begin'] + b + ['end architecture;']) + '\n'
    def job(opt):
        d, got, r = R.go('tog%d' % OPTS.index(opt), text, 't', 'toggle' + (',' + opt if opt else ''))
        if got is None:
            c.violation('toggle:run', 'does not run: ' + r.out[-300:], {'d.vhd': text})
            return 0
        exp = {}
        for i, (h, ty, how) in enumerate(cases):
            put(exp, 'WORK.T.S%d' % i, hist_counts(h, opt))
        for x in diff(got, exp)[:4]:
            i = int(re.search(r'\.S(\d+)', x).group(1))
            c.violation('toggle:%s:%s' % (opt, ''.join(cases[i][0])), '%s for history %s of a %s with options "%s"' % (x, cases[i][0], cases[i][1], opt),
                        {'d.vhd': text})
        return len(cases)
    return sum(c.pmap(job, OPTS))


def check_vector_toggles(c, R):
    """vectors: all histories with every driver structure"""
    vals = list(itertools.product('01', repeat=3)) + [tuple('UUU'), tuple('Z01'), tuple('1XZ')]
    decl, body, exps, split = [], [], {}, {}
    n = 0
    shapes = [('std_logic_vector(2 downto 0)', [2, 1, 0]), ('std_ulogic_vector(0 to 2)', [0, 1, 2]), ('unsigned(4 downto 2)', [4, 3, 2]),
              ('sv3', [3, 2, 1]), ('std_logic_vector(-1 to 1)' if False else 'sneg', [-1, 0, 1])]
    def add(ty, idx, hist, drv, init):
        nonlocal n
        s = 'v%d' % n
        n += 1
        lit = lambda v: '"' + ''.join(v) + '"'
        decl.append('  signal %s : %s := %s;' % (s, ty, lit(init)))
        parts = {'whole': [(0, 3)], 'elem': [(0, 1), (1, 2), (2, 3)], 'lo': [(0, 1), (1, 3)], 'hi': [(0, 2), (2, 3)]}[drv]
        down = idx[0] > idx[-1]
        for a, b in parts:
            if (a, b) == (0, 3):
                tgt = s
            elif b - a == 1:
                tgt = '%s(%d)' % (s, idx[a])
            else:
                tgt = '%s(%d %s %d)' % (s, idx[a], 'downto' if down else 'to', idx[b - 1])
            w = ', '.join("%s after %d ns" % (("'%s'" % v[a]) if b - a == 1 else lit(v[a:b]), k + 1) for k, v in enumerate(hist))
            body.append('  %s <= %s;' % (tgt, w))
        hs = [[init[j]] + [v[j] for v in hist] for j in range(3)]
        for j in range(3):
            exps.setdefault('', {})['WORK.T.%s(%d)' % (s.upper(), idx[j])] = hs[j]
            if drv != 'whole':
                split['WORK.T.%s(%d)' % (s.upper(), idx[j])] = (parts, hs, j)
    k = 0
    for init in vals[:8] if c.thorough else vals[:8:3]:
        for v1 in vals:
            for v2 in vals if c.thorough else vals[::2]:
                for drv in ('whole', 'elem', 'lo', 'hi'):
                    k += 1
                    ty, idx = shapes[k % len(shapes)]
                    if not c.thorough and k % 2:
                        continue
                    add(ty, idx, [v1, v2], drv, init)
    # wide vectors, one element changes
    for w in (1, 7, 8, 9, 16, 17, 31, 33) + ((64, 65) if c.thorough else ()):
        for pos in sorted({0, 1, w // 2, 6, 7, 8, 9, 15, 16, w - 2, w - 1} & set(range(w))):
            s = 'v%d' % n
            n += 1
            decl.append("  signal %s : std_logic_vector(%d downto 0) := (others => '0');" % (s, w - 1))
            body.append("  process begin wait for 1 ns; %s <= (%d => '1', others => '0'); wait for 1 ns; %s <= (others => '0'); wait; end process;" % (s, pos, s))
            for j in range(w):
                exps['']['WORK.T.%s(%d)' % (s.upper(), j)] = ['0', '1', '0'] if j == pos else ['0']
    text = HDR + 'use ieee.numeric_std.all;\nentity t is end entity;\narchitecture a of t is\n  subtype sv3 is std_logic_vector(3 downto 1);\n' \
        '  type isneg is array (integer range <>) of std_ulogic;\n  subtype sneg is isneg(-1 to 1);\n' \
        + '\n'.join(decl) + '\nbegin\n' + '\n'.join(body) + '\nend architecture;\n'
    def job(opt):
        d, got, r = R.go('vec%d' % OPTS.index(opt), text, 't', 'toggle' + (',' + opt if opt else ''))
        if got is None:
            c.violation('vector:run', 'does not run: ' + r.out[-300:], {'d.vhd': text})
            return 0
        exp = {}
        again = []
        for h, hist in exps[''].items():
            put(exp, h, hist_counts(hist, opt))
            if h in split:
                alt = {}
                put(alt, h, recounts(split[h][0], split[h][1], opt)[split[h][2]])
                if all(got.get(k) == x for k, x in alt.items()) and any(exp[k] != x for k, x in alt.items()):
                    exp.update(alt)
                    again.append(h)
        if again:
            c.violation('recount', 'toggles of elements of a signal with several drivers are counted again at each event of another element (%d elements, first %s, options "%s")' % (
                len(again), again[0], opt), {'d.vhd': text})
        for x in diff(got, exp)[:4]:
            c.violation('vector:%s:%s' % (opt, x.split(':')[0]), 'vector toggle %s with options "%s"' % (x, opt), {'d.vhd': text})
        return n
    return sum(c.pmap(job, OPTS if c.thorough else [OPTS[0], OPTS[3]]))


def check_ports(c, R):
    """ports connected to each part of a signal"""
    # signal objects: name, type, elements as (suffix, bit number)
    hist = [''.join(h) for h in ('00000000', '10110010', '01110011', '11010001', '00101111')]
    # distinct history for each bit
    bit = lambda i: [h[i % 8] for h in hist]
    V = 'std_logic_vector'
    sub = ''
    for w in (1, 2, 3):
        for d in ('downto', 'to'):
            for m in ('in', 'out'):
                rng = '%d downto 0' % (w - 1) if d == 'downto' else '0 to %d' % (w - 1)
                for lvl in (0, 1):
                    nm = 'e%d%s%s%d' % (w, d[0], m[0], lvl)
                    sub += HDR + 'entity %s is port (p : %s %s(%s)); end entity;\narchitecture a of %s is begin\n' % (nm, m, V, rng, nm)
                    if lvl:
                        sub += '  u : entity work.e%d%s%s0 port map (p);\n' % (w, d[0], m[0])
                    elif m == 'out':
                        for k in range(w):
                            idx = w - 1 - k if d == 'downto' else k
                            sub += '  p(%d) <= %s;\n' % (idx, ', '.join("'%s' after %d ns" % (x, j) for j, x in enumerate(bit(k)) if j))
                    sub += 'end architecture;\n'
    for m in ('in', 'out'):
        for lvl in (0, 1):
            nm = 's%s%d' % (m[0], lvl)
            sub += HDR + 'entity %s is port (p : %s std_logic); end entity;\narchitecture a of %s is begin\n' % (nm, m, nm)
            if lvl:
                sub += '  u : entity work.s%s0 port map (p);\n' % m[0]
            elif m == 'out':
                sub += '  p <= %s;\n' % ', '.join("'%s' after %d ns" % (x, j) for j, x in enumerate(bit(0)) if j)
            sub += 'end architecture;\n'
    decl, body, exp = [], [], {}
    n = 0
    def cnt(h):
        return hist_counts(h, '')
    # in ports: signal of width 4 in different carriers, each slice or element
    carriers = [('sig', '%s : std_logic_vector(3 downto 0)', '%s', True), ('up', '%s : std_logic_vector(0 to 3)', '%s', False),
                ('rec', '%s : rec', '%s.v', True), ('nrec', '%s : nrec', '%s.r.v', True), ('mem', '%s : mem', '%s(1)', True),
                ('arec', '%s : arec', '%s(1).v', True)]
    init = "'0'"
    for ci, (cn, dcl, ref, down) in enumerate(carriers):
        zero = {'sig': "(others => '0')", 'up': "(others => '0')", 'rec': "(x => '0', v => \"0000\", y => '0')",
                'nrec': "(a => '0', r => (x => '0', v => \"0000\", y => '0'))", 'mem': '(others => "0000")',
                'arec': "(others => (x => '0', v => \"0000\", y => '0'))"}[cn]
        for m in ('in', 'out'):
            for lo in range(4):
                for w in (1, 2, 3):
                    if lo + w > 4:
                        continue
                    forms = ['sl'] if w > 1 else ['sl', 'el']
                    for form in forms:
                        for pd in ('downto', 'to') if form == 'sl' else ('',):
                            for lvl in (0, 1):
                                s = 'c%d' % n
                                u = 'u%d' % n
                                n += 1
                                decl.append('  signal ' + dcl % s + ' := ' + zero + ';')
                                # position 0 is the leftmost element
                                idx = [3 - k if down else k for k in range(4)]
                                base = ref % s
                                pos = list(range(lo, lo + w))
                                if form == 'el':
                                    act = '%s(%d)' % (base, idx[lo])
                                    body.append('  %s : entity work.s%s%d port map (%s);' % (u, m[0], lvl, act))
                                    pn = lambda k: 'P'
                                else:
                                    act = '%s(%d %s %d)' % (base, idx[lo], 'downto' if down else 'to', idx[lo + w - 1])
                                    body.append('  %s : entity work.e%d%s%s%d port map (%s);' % (u, w, pd[0], m[0], lvl, act))
                                    pn = lambda k, pd=pd, w=w: 'P(%d)' % (w - 1 - k if pd == 'downto' else k)
                                hs = {}
                                for k in range(4):
                                    driven = k in pos
                                    if m == 'in':
                                        hs[k] = bit(k + ci)
                                        body.append('  %s(%d) <= %s;' % (base, idx[k], ', '.join("'%s' after %d ns" % (x, j) for j, x in enumerate(hs[k]) if j)))
                                    elif driven:
                                        # the port has 'U' as its initial value
                                        hs[k] = ['U'] + bit(k - lo)[1:]
                                    else:
                                        hs[k] = ['0']
                                hier = {'sig': s, 'up': s, 'rec': s + '.V', 'nrec': s + '.R.V', 'mem': s + '(1)', 'arec': s + '.V'}[cn]
                                if cn not in ('mem', 'arec'):
                                    for k in range(4):
                                        put(exp, ('WORK.T.%s(%d)' % (hier, idx[k])).upper(), cnt(hs[k]))
                                for k, q in enumerate(pos):
                                    for l in range(lvl + 1):
                                        put(exp, ('WORK.T.%s%s.%s' % (u, '.U' * l, pn(k))).upper(), cnt(hs[q]))
    text = sub + HDR + 'entity t is end entity;\narchitecture a of t is\n  type rec is record x : std_logic; v : std_logic_vector(3 downto 0); y : std_logic; end record;\n' \
        '  type nrec is record a : std_logic; r : rec; end record;\n  type mem is array (0 to 2) of std_logic_vector(3 downto 0);\n' \
        '  type arec is array (0 to 2) of rec;\n' + '\n'.join(decl) + '\nbegin\n' + '\n'.join(body) + '\nend architecture;\n'
    tot = 0
    for opts in ('toggle',) if not c.thorough else ('toggle', 'toggle,include-mems'):
        d, got, r = R.go('ports' + str(len(opts)), text, 't', opts)
        if got is None:
            c.violation('ports:run', 'does not run: ' + r.out[-300:], {'d.vhd': text})
            return 0
        # the known repeated counting of elements with separate drivers keeps
        # covered and uncovered bins apart and never counts less
        again = [k for k in exp if k in got and exp[k] and got[k] > exp[k]]
        if again:
            c.violation('recount', 'toggles of elements of a signal with several drivers are counted again at each event of another element (ports, %d bins)' % len(again), {'d.vhd': text})
        bad = diff(got, exp, lambda k: k in exp and k not in again)
        for x in bad[:6]:
            c.violation('ports:' + x.split(':')[0], 'toggle count of a connected port: ' + x, {'d.vhd': text})
        tot += len(exp)
    return tot


# ---------------------------------------------------------------- states
def check_states(c, R):
    types = [('st3', ['IDLE', 'RUN', 'DONE'], 0, 2), ('sub2', ['IDLE', 'RUN', 'DONE'], 1, 2), ('st1', ['ONE'], 0, 0),
             ('stc', ["'0'", 'AB', "'1'", "'z'"], 0, 3), ('subc', ["'0'", 'AB', "'1'", "'z'"], 1, 2),
             ('subd', ['IDLE', 'RUN', 'DONE'], 0, 1)]
    decl, body, exp, pexp = [], [], {}, []
    n = 0
    L = 5 if c.thorough else 4
    for tn, lits, lo, hi in types:
        for h in itertools.product(range(lo, hi + 1), repeat=L):
            for how in range(4):
                if how == 3 and len(set(h)) < 2:
                    continue
                if not c.thorough and len(lits) == 4 and (n + how) % 2:
                    n += 1
                    continue
                s = 's%d' % n
                n += 1
                init = h[0]
                decl.append('  signal %s : %s%s;' % (s, tn, '' if init == lo and n % 2 else ' := ' + lits[init]))
                hist = list(h)
                if how == 0:
                    body.append('  %s <= %s;' % (s, ', '.join('%s after %d ns' % (lits[x], k + 1) for k, x in enumerate(h[1:]))))
                elif how == 1:
                    body.append('  process begin ' + ''.join('wait for 0 ns; %s <= %s; ' % (s, lits[x]) for x in h[1:]) + 'wait; end process;')
                elif how == 2:
                    # same as 0 with the values forced
                    body.append('  process begin ' + ''.join('wait for 1 ns; %s <= force %s; ' % (s, lits[x]) for x in h[1:]) + 'wait; end process;')
                else:
                    # driven through a port, whose initial value is the leftmost
                    k = h[1:]
                    hist = [None] + list(k)
                    decl[-1] = '  signal %s : %s := %s;' % (s, tn, lits[init])
                    body.append('  u%s : entity work.d%s generic map (%s) port map (%s);' % (s, tn, ', '.join(lits[x] for x in k), s))
                    # value of an undriven formal before the first assignment:
                    # the default of the port becomes the value of the signal
                    hist[0] = lo
                cnt = {}
                prev = None
                for x in hist:
                    if x != prev:
                        cnt[x] = cnt.get(x, 0) + 1
                    prev = x
                for x in range(lo, hi + 1):
                    exp[('state', 'WORK.T.%s.BIN_STATE.%s' % (s.upper(), lits[x]))] = cnt.get(x, 0)
    pk = "package p is\n  type st3 is (idle, run, done);\n  subtype sub2 is st3 range run to done;\n  type st1 is (one);\n  type stc is ('0', ab, '1', 'z');\n" \
        "  subtype subc is stc range ab to '1';\n  subtype subd is st3 range idle to run;\nend package;\n"
    for tn, lits, lo, hi in types:
        g = ['g%d' % i for i in range(L - 1)]
        pk += 'use work.p.all;\nentity d%s is generic (%s : %s); port (o : out %s); end entity;\narchitecture a of d%s is begin\n  o <= %s;\nend architecture;\n' % (
            tn, ', '.join(g), tn, tn, tn, ', '.join('%s after %d ns' % (x, i + 1) for i, x in enumerate(g)))
    text = pk + 'use work.p.all;\nentity t is end entity;\narchitecture a of t is\n' + '\n'.join(decl) + '\nbegin\n' + '\n'.join(body) + '\nend architecture;\n'
    d, got, r = R.go('states', text, 't', 'fsm-state')
    if got is None:
        c.violation('states:run', 'does not run: ' + r.out[-300:], {'d.vhd': text})
        return 0
    for x in diff(got, exp)[:8]:
        m = re.search(r'\.S(\d+)\.', x)
        w = ''
        if m:
            k = 's' + m.group(1)
            w = ' '.join(l.strip() for l in decl + body if re.search(r'\b%s\b' % k, l))
        c.violation('state:' + x.split(':')[0], 'state coverage %s (%s)' % (x, w), {'d.vhd': text})
    return n


# ---------------------------------------------------------------- merging
MERGE = HDR + r"""
entity sub is generic (n : integer); port (p : in std_logic_vector(0 to n - 1)); end entity;
architecture a of sub is
  signal s : std_logic_vector(n - 1 downto 0);
begin
  s <= p;
end architecture;
library ieee; use ieee.std_logic_1164.all;
entity t is generic (w : integer := 2; k : integer := 0); end entity;
architecture a of t is
  type st is (one, two, three);
  type rec is record a : std_logic; b : std_logic_vector(0 to w - 1); end record;
  signal f, g, h : st;
  signal v : std_logic_vector(w - 1 downto 0) := (others => '0');
  signal u : std_logic_vector(0 to w - 1) := (others => '0');
  signal r : rec := (a => '0', b => (others => '0'));
  signal i : std_logic := '0';
  function fn (x : integer) return integer is begin return x + 1; end function;
  function fn (x : boolean) return integer is begin if x then return 1; end if; return 2; end function;
begin
  p : process
    variable x : integer;
  begin
    for j in 0 to k loop
      x := fn(j);
      x := x + fn(j = 1);
    end loop;
    if k = 1 and w > 1 then
      x := 2;
    elsif k = 2 or x = 3 then
      x := 5;
    end if;
    case k is
      when 0 => f <= two;
      when 1 | 3 => g <= three;
      when 2 => f <= three, one after 1 ns;
      when others => null;
    end case;
    for j in 0 to w - 1 loop
      v(j) <= '1' after j * 1 ns;
      u(j) <= '1' after j * 1 ns, '0' after 5 ns;
      r.b(j) <= '1';
    end loop;
    r.a <= '1' after 1 ns;
    wait;
  end process;
  q : if k = 1 generate
    i <= '1';
    y : entity work.sub generic map (w) port map (u);
  end generate;
  z : if k = 2 generate
    y : entity work.sub generic map (w) port map ("000");
  end generate;
  e : for j in 0 to k generate
    y : entity work.sub generic map (w) port map (v);
  end generate;
end architecture;
"""


def satadd(k, a, b):
    if k[0] == 'toggle' and (a < 0 or b < 0):
        return -2**31
    return min(MAXI, a + b)


def check_merge(c, R):
    cfgs = [(2, 0), (4, 1), (1, 0), (3, 2), (0, 0)]
    dirs, data = {}, {}

    def export(d, db):
        r = c.nvc(['--cover-export', '--format=xml', '-o', db + '.xml', db], d, timeout=100)
        if r.rc:
            return None
        got = {}
        for e in ET.parse(os.path.join(d, db + '.xml')).iter():
            if e.get('data') is not None:
                got.setdefault((e.tag, e.get('hier')), []).append(int(e.get('data')))
        return got
    m = c.dir('merge')
    vf_write(m, 'd.vhd', MERGE)
    r = c.nvc(['-a', 'd.vhd'], m)
    for i, (w, k) in enumerate(cfgs):
        db = 'x%d.db' % i
        r = c.nvc(['-e', '--jit', '--cover=all', '--cover-file=' + db, '-gw=%d' % w, '-gk=%d' % k, 't', '-r'], m, timeout=100)
        R.runs += 1
        if r.rc:
            c.violation('merge:run', 'does not run: ' + r.out[-300:], {'d.vhd': MERGE})
            return 0
        data[i] = export(m, db)
    n = [0]

    def merge(d, out, ins):
        r = c.nvc(['--cover-merge', '-o', out] + ins, d, timeout=100)
        R.runs += 1
        n[0] += 1
        return r

    def combine(xs):
        e = {}
        for x in xs:
            for k, l in x.items():
                if k in e:
                    if len(e[k]) == len(l):
                        e[k] = [satadd(k, a, b) for a, b in zip(e[k], l)]
                    else:
                        e[k] = [sum(e[k]) + sum(l)]
                else:
                    e[k] = list(l)
        return e

    def judge(what, d, out, parts):
        got = export(d, out)
        exp = combine([data[i] for i in parts])
        if got is None:
            c.violation('merge:' + what, 'the merged database is not readable', {'d.vhd': MERGE})
            return
        bad = []
        for k in sorted(set(got) | set(exp)):
            a, b = got.get(k), exp.get(k)
            if a != b:
                bad.append('%s %s: %s, sum is %s' % (k[0], k[1], a, b))
        if bad:
            c.violation('merge:' + what, 'merging %s (generics w,k = %s): %s (%d bins)' % (what, [cfgs[i] for i in parts], bad[0], len(bad)), {'d.vhd': MERGE})

    jobs = []
    for ln in (1, 2, 3) if not c.thorough else (1, 2, 3, 4):
        for t in itertools.product(range(len(cfgs)), repeat=ln):
            if ln == 3 and not c.thorough and t[0] != t[1] and (sum(t) % 2):
                continue
            if ln == 4 and len(set(t)) < 4:
                continue
            jobs.append(t)

    def job(t):
        nm = ''.join(map(str, t))
        x = 'm%s.db' % nm
        r = merge(m, x, ['x%d.db' % i for i in t])
        if r.rc:
            c.violation('merge:' + nm, 'merging %s fails: %s' % ([cfgs[i] for i in t], r.out[-300:]), {'d.vhd': MERGE})
            return
        judge(nm, m, x, t)
        if len(t) == 3:
            a, b = 'a%s.db' % nm, 'b%s.db' % nm
            merge(m, a, ['x%d.db' % i for i in t[:2]])
            merge(m, 'l' + x, [a, 'x%d.db' % t[2]])
            judge('(%d%d)%d' % t, m, 'l' + x, t)
            merge(m, b, ['x%d.db' % i for i in t[1:]])
            merge(m, 'r' + x, ['x%d.db' % t[0], b])
            judge('%d(%d%d)' % t, m, 'r' + x, t)
    c.pmap(job, jobs)
    # saturation: double a database 32 times
    cur, val = 'x1.db', data[1]
    for i in range(33):
        nx = 's%d.db' % (i % 2)
        merge(m, nx, [cur, cur])
        val = {k: [satadd(k, a, a) for a in l] for k, l in val.items()}
        if i >= 26:
            got = export(m, nx)
            bad = [k for k in val if got.get(k) != val[k]]
            if bad:
                c.violation('merge:saturate', 'after doubling a database %d times %s is %s, not %s' % (i + 1, bad[0], got.get(bad[0]), val[bad[0]]), {})
                break
        cur = nx
    return n[0]


# ---------------------------------------------------------------- options
OPTD = HDR + r"""
entity leaf is port (i : in std_logic; o : out std_logic; k : in std_logic_vector(1 downto 0)); end entity;
architecture a of leaf is
  type st is (s0, s1);
  signal f : st;
begin
  o <= not i;
  process (i) is
  begin
    if rising_edge(i) then
      f <= s1;
      -- coverage off
      case k is
        when "00" => f <= s0;
        when others => null;
      end case;
      -- coverage on
    end if;
  end process;
end architecture;
library ieee; use ieee.std_logic_1164.all;
entity mid is port (i : in std_logic; o : out std_logic); end entity;
architecture a of mid is
  signal x : std_logic := '0';
begin
  u1 : entity work.leaf port map (i, x, "01");
  u2 : entity work.leaf port map (x, o, "10");
end architecture;
library ieee; use ieee.std_logic_1164.all;
entity t is end entity;
architecture a of t is
  type mem is array (0 to 1) of std_logic_vector(2 downto 0);
  type m2 is array (0 to 1, 1 to 2) of std_logic;
  type big is (b0, b1);
  signal g : big;
  signal i : std_logic := '0'; signal o, o2 : std_logic;
  signal m : mem := (others => "000");
  signal n : m2 := (others => (others => '0'));
  signal v : std_logic_vector(3 downto 0) := "0000";
  -- coverage off
  signal w : std_logic_vector(3 downto 0) := "0000";
  -- coverage on
begin
  a1 : entity work.mid port map (i, o);
  a2 : entity work.mid port map (o, o2);
  b : block
    signal y : std_logic;
  begin
    y <= o2;
    lf : entity work.leaf port map (y, open, "11");
  end block;
  process
  begin
    for j in 1 to 3 loop
      i <= '1'; wait for 1 ns;
      i <= '0'; wait for 1 ns;
    end loop;
    m(0) <= "101"; m(1)(2) <= '1'; n(1, 2) <= '1'; v <= "1010"; w <= "1111"; g <= b1;
    wait for 1 ns;
    m(0) <= "000";
    wait;
  end process;
end architecture;
"""
KINDS = {'statement': 'statement', 'branch': 'branch', 'toggle': 'toggle', 'expression': 'expression', 'fsm-state': 'state', 'functional': 'functional'}


def glob(p, s):
    return re.fullmatch(''.join('.*' if ch == '*' else re.escape(ch) for ch in p), s, re.I) is not None


def check_options(c, R):
    """selection of bins never changes the counts of the remaining ones"""
    d, full, r = R.go('opt', OPTD, 't', 'all,include-mems')
    if full is None:
        c.violation('options:run', 'does not run: ' + r.out[-300:], {'d.vhd': OPTD})
        return 0
    n = [0]

    def go(name, opts, expect, extra=(), files=None, pre=()):
        dd = c.dir('o_' + name)
        for f, t in (files or {}).items():
            vf_write(dd, f, t)
        d, got, r = R.go('o_' + name, OPTD, 't', opts, pre=pre)
        n[0] += 1
        if got is None:
            c.violation('options:' + name, 'fails with --cover=%s: %s' % (opts, r.out[-300:]), {'d.vhd': OPTD})
            return
        bad = diff(got, expect)
        if bad:
            c.violation('options:' + name, 'with --cover=%s%s: %s' % (opts, ' '.join(pre), bad[0]), dict(files or {}, **{'d.vhd': OPTD}))
        return got, d

    jobs = []
    nomem = {k: x for k, x in full.items() if not re.match(r'WORK\.T\.[MN]\(', k[1])}
    # every subset of the kinds
    kinds = list(KINDS)
    for ln in range(1, 7):
        for t in itertools.combinations(kinds, ln):
            if not c.thorough and ln in (2, 4) and kinds.index(t[0]) % 2:
                continue
            exp = {k: x for k, x in nomem.items() if k[0] in [KINDS[q] for q in t]}
            if 'branch' not in t or 'expression' not in t or 'statement' not in t:
                pass
            jobs.append(('k' + '_'.join(t), ','.join(t), exp, {}, ()))
    # ignore-arrays-from: every limit
    dims = {'M': (2, 3), 'N': (2, 2), 'V': (4,), 'K': (2,)}
    for lim in range(1, 7):
        for mem in ('', ',include-mems'):
            exp = {}
            for k, x in (full if mem else nomem).items():
                mm = re.search(r'\.([MNVK])\(', k[1])
                if mm and k[0] == 'toggle' and any(z >= lim for z in dims[mm.group(1)]):
                    continue
                exp[k] = x
            jobs.append(('ign%d%s' % (lim, mem), 'all,ignore-arrays-from-%d%s' % (lim, mem), exp, {}, ()))
    jobs.append(('noenum', 'all,fsm-no-default-enums', {k: x for k, x in nomem.items() if k[0] != 'state'}, {}, ()))
    # specification files
    insts = ['WORK.T', 'WORK.T.A1', 'WORK.T.A1.U1', 'WORK.T.A1.U2', 'WORK.T.A2', 'WORK.T.A2.U1', 'WORK.T.A2.U2', 'WORK.T.B', 'WORK.T.B.LF']
    blk = {'WORK.T': 'T', 'WORK.T.A1': 'MID', 'WORK.T.A2': 'MID', 'WORK.T.B': 'T'}
    def inst(h):
        best = ''
        for i in insts:
            if (h + '.').startswith(i + '.') and len(i) > len(best):
                best = i
        return best
    def selected(h, spec):
        # the scope of an object starts with its hierarchy
        sc = h
        i = inst(h)
        b = blk.get(i, 'LEAF')
        for sgn in '-+':
            for s_, kind, pat in spec:
                if kind == 'block' and s_ == sgn and glob(pat.upper(), b):
                    return sgn == '+'
        for sgn in '-+':
            for s_, kind, pat in spec:
                if kind == 'hierarchy' and s_ == sgn and glob(pat, sc):
                    return sgn == '+'
        return False
    pats = [('+', 'block', 'leaf'), ('+', 'block', 'mid'), ('-', 'block', 'mid'), ('+', 'hierarchy', 'WORK.T*'), ('+', 'hierarchy', 'WORK.T.A1*'),
            ('-', 'hierarchy', 'WORK.T.A1.U1*'), ('-', 'block', 'leaf'), ('+', 'hierarchy', '*U2*')]
    specs = [t for ln in (1, 2, 3) for t in itertools.combinations(pats, ln)]
    if not c.thorough:
        specs = specs[::3]
    for i, t in enumerate(specs):
        exp = {k: x for k, x in nomem.items() if selected(k[1], t)}
        jobs.append(('spec%d' % i, 'all', exp, {'s.txt': ''.join('%s%s %s\n' % x for x in t)}, ('--cover-spec=s.txt',)))
    for i, (t, keep) in enumerate([((('+', 'ST'),), ('ST', 'BIG')), ((('-', 'ST'),), ('BIG',)), ((('-', '*'),), ()), ((('-', 'S*'), ('+', 'BIG')), ('BIG',)),
                                   ((('+', 'ST'), ('-', '*')), ('ST',)), ((('-', 'B*'),), ('ST',))]):
        exp = {k: x for k, x in nomem.items() if k[0] != 'state' or (('BIG' if '.G.' in k[1] else 'ST') in keep)}
        jobs.append(('fsm%d' % i, 'all', exp, {'s.txt': '+hierarchy *\n' + ''.join('%sfsm_type %s\n' % x for x in t)}, ('--cover-spec=s.txt',)))
    c.pmap(lambda j: go(j[0], j[1], j[2], files=j[3], pre=j[4]), jobs)

    # thresholds and exclusion in the report
    def rep(a):
        ix, th, unr, excl = a
        opts = 'all,include-mems,threshold-%d%s' % (th, ',exclude-unreachable' if unr else '')
        name = 'r%d' % ix
        d, got, r = R.go(name, OPTD, 't', opts)
        n[0] += 1
        if got is None:
            c.violation('report:run', 'fails with ' + opts + r.out[-300:], {'d.vhd': OPTD})
            return
        bad = diff(got, full)
        if bad:
            c.violation('report:counts', 'with --cover=%s: %s' % (opts, bad[0]), {'d.vhd': OPTD})
        vf_write(d, 'e.txt', ''.join('exclude %s\n' % x for x in excl))
        for files in (False, True):
            r = c.nvc(['--cover-report', '-o', 'html%d' % files] + (['--exclude-file=e.txt'] if excl else []) + (['--per-file'] if files else []) + ['x.db'], d, timeout=60)
            n[0] += 1
            sums = {}
            cur = None
            for l in r.out.split('\n'):
                m = re.search(r'code coverage results for: (\S+)', l)
                if m:
                    cur = m.group(1)
                m = re.search(r'Note:\s+(\S.*?):\s+([\d.]+) % \((\d+)/(\d+)\)', l)
                if m and cur:
                    sums[cur, m.group(1)] = (int(m.group(3)), int(m.group(4)), m.group(2))
            tot = {}
            for (kind, h), x in full.items():
                cov = x >= th
                if unr and x < 0:
                    cov = True
                if any(glob(q, h) for q in excl):
                    cov = True
                a = tot.setdefault(kind, [0, 0])
                a[0] += cov
                a[1] += 1
            for kind, nm in (('statement', 'statement'), ('branch', 'branch'), ('toggle', 'toggle'), ('expression', 'expression'), ('state', 'FSM state')):
                if files:
                    continue
                g = sums.get(('WORK.T', nm))
                e = tot.get(kind)
                if e is None and g is None:
                    continue
                if g is None or [g[0], g[1]] != e or abs(float(g[2]) - 100.0 * g[0] / g[1]) > 0.0501:
                    c.violation('report:%s:%s' % (name, kind), 'the report for --cover=%s%s says %s for %s, the bins give %s' % (
                        opts, ' with exclusions %s' % (excl,) if excl else '', g, nm, e), {'d.vhd': OPTD, 'e.txt': '\n'.join(excl)})
    hs = sorted({k[1] for k in full})
    reps = [(th, u, ()) for th in (1, 2, 3, 4, 7) for u in (0, 1)]
    reps += [(1, 0, (h,)) for h in hs[::7 if not c.thorough else 1]]
    reps += [(2, 0, ('WORK.T.A1*',)), (1, 1, ('WORK.T.V*', 'WORK.T.*BIN_TRUE'))]
    c.pmap(rep, [(i,) + a for i, a in enumerate(reps)])
    return n[0]


def main():
    c = vf.Check('P22', 'model_checking')
    c.build()
    R = Runner(c)
    cov = {}
    for name, fn in (('programs', check_programs), ('operators and cases', check_misc), ('scalar histories', check_scalar_toggles), ('vector histories', check_vector_toggles),
                     ('port bins', check_ports), ('state histories', check_states), ('merges', check_merge), ('options', check_options)):
        if fn is None:
            continue
        cov[name] = fn(c, R)
        c.log('%s: %s' % (name, cov[name]))
    c.finish(dict(cov, executions=R.runs, bins=R.bins), [])


if __name__ == '__main__':
    vf.main(main)


