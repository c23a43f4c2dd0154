#!/usr/bin/env python3
"""P09: out-of-range accesses are always caught and legal ones never.

One design holds a procedure for every kind of run-time check (index, slice,
length, scalar range, allocation, aggregate, attribute, null access, delay) in
every direction and for every sort of type; it reads which procedure to run
with which arguments from a file.  All argument tuples that reach two beyond
each bound are enumerated: the legal ones must all run in one simulation with
the right results, and each illegal one must stop its own simulation with an
error before the next statement.  A second family covers checks that may be
removed because of value range inference, a third the same accesses with
literal operands, which are decided during analysis."""
import os, re, sys, struct, itertools, threading, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

KINDS = []      # name, code, reference, domain


def kind(name, code, ref, dom, decl=''):
    KINDS.append((name, code, ref, list(dom), decl))


ERR = None


def rng(D, l, r):
    return list(range(l, r + 1)) if D == 'to' else list(range(l, r - 1, -1))


SHAPES = {'to': [(2, 4), (2, 2), (2, 1), (-1, 1)], 'downto': [(4, 2), (2, 2), (1, 2), (1, -1)]}


def sumw(vals):
    return sum((k + 1) * v for k, v in enumerate(vals))


def build_kinds(thorough):
    for D in ('to', 'downto'):
        n = '_' + D
        dom = [(l, r, i) for l, r in SHAPES[D] for i in range(min(l, r) - 2, max(l, r) + 3)]
        fill = "for k in v'range loop v(k) := k * 10; end loop;"
        rd = lambda D: (lambda l, r, i: i * 10 if i in rng(D, l, r) else ERR)

        def wr(D):
            def f(l, r, i):
                ix = rng(D, l, r)
                return sumw([777 if k == i else k * 10 for k in ix]) if i in ix else ERR
            return f
        kind('idx_rd' + n, 'procedure $ is variable v : iv(a %s b); begin %s res := v(c); end;' % (D, fill), rd(D), dom)
        kind('idx_rd_u' + n, 'procedure $ is variable v : iv(a %s b); begin %s res := rdu(v, c); end;' % (D, fill), rd(D), dom)
        kind('idx_wr' + n, 'procedure $ is variable v : iv(a %s b); begin %s v(c) := 777; res := sumw(v); end;' % (D, fill), wr(D), dom)
        kind('idx_wr_u' + n, 'procedure $ is variable v : iv(a %s b); begin %s wru(v, c); res := sumw(v); end;' % (D, fill), wr(D), dom)
        kind('idx_acc' + n, 'procedure $ is variable v : piv := new iv(a %s b); begin %s v(c) := 777; res := v(c); end;' % (D, fill),
             (lambda D: lambda l, r, i: 777 if i in rng(D, l, r) else ERR)(D), dom)
        kind('idx_elem_rec' + n, 'procedure $ is variable v : rv(a %s b); begin v(c).y := 5; res := v(c).y + v(c).x; end;' % D,
             (lambda D: lambda l, r, i: 5 - 2**31 if i in rng(D, l, r) else ERR)(D), dom)
        kind('idx_nest' + n, 'procedure $ is variable v : nest(1 to 2)(a %s b); begin v(2)(c) := 9; res := v(2)(c); end;' % D,
             (lambda D: lambda l, r, i: 9 if i in rng(D, l, r) else ERR)(D), dom)
        dom2 = [(l, r, i, j) for l, r in SHAPES[D] for i in range(min(l, r) - 2, max(l, r) + 3) for j in (4, 5, 7, 8)]
        kind('idx_2d' + n, 'procedure $ is variable v : m2(a %s b, 5 to 7); begin v(c, d) := 3; res := v(c, d); end;' % D,
             (lambda D: lambda l, r, i, j: 3 if i in rng(D, l, r) and 5 <= j <= 7 else ERR)(D), dom2)
        kind('idx_2d_b' + n, 'procedure $ is variable v : m2(5 to 7, a %s b); begin v(d, c) := 3; res := v(d, c); end;' % D,
             (lambda D: lambda l, r, i, j: 3 if i in rng(D, l, r) and 5 <= j <= 7 else ERR)(D), dom2)
        kind('idx_nest_out' + n, 'procedure $ is variable v : nest(a %s b)(5 to 7); begin v(c)(d) := 3; res := v(c)(d); end;' % D,
             (lambda D: lambda l, r, i, j: 3 if i in rng(D, l, r) and 5 <= j <= 7 else ERR)(D), dom2)
        # slices
        doms = [(l, r, i, j) for l, r in SHAPES[D][:3] for i in range(min(l, r) - 2, max(l, r) + 3) for j in range(min(l, r) - 2, max(l, r) + 3)]

        def sl(D):
            def f(l, r, i, j):
                ix = rng(D, i, j)
                if not ix:
                    return 0
                full = rng(D, l, r)
                return sum(k * 10 for k in ix) + 100000 * len(ix) if all(k in full for k in ix) else ERR
            return f
        kind('slice_rd' + n, 'procedure $ is variable v : iv(a %s b); begin %s res := sums(v(c %s d)); end;' % (D, fill, D), sl(D), doms)
        kind('slice_rd_u' + n, 'procedure $ is variable v : iv(a %s b); procedure q(v : iv) is begin res := sums(v(c %s d)); end; begin %s q(v); end;' % (D, D, fill), sl(D), doms)
        kind('slice_acc' + n, 'procedure $ is variable v : piv := new iv(a %s b); begin %s res := sums(v.all(c %s d)); end;' % (D, fill, D), sl(D), doms)

        def sw(D):
            def f(l, r, i, j, m):
                ix, full = rng(D, i, j), rng(D, l, r)
                if ix and not all(k in full for k in ix):
                    return ERR
                if m != len(ix):
                    return ERR
                w = {k: 500 + q for q, k in enumerate(ix)}
                return sumw([w.get(k, k * 10) for k in full])
            return f
        domw = [(l, r, i, j, m) for (l, r, i, j) in doms if (l, r) != SHAPES[D][1] for m in {max(0, len(rng(D, i, j)) - 1), len(rng(D, i, j)), len(rng(D, i, j)) + 1}]
        if not thorough:
            domw = [x for k, x in enumerate(domw) if sw(D)(*x) is not ERR or x[4] == len(rng(D, x[2], x[3])) or k % 3 == 0]
        kind('slice_wr' + n, '''procedure $ is variable v : iv(a %s b); variable w : iv(1 to e); begin %s
          for k in w'range loop w(k) := 499 + k; end loop; v(c %s d) := w; res := sumw(v); end;''' % (D, fill, D), sw(D), domw)
        # constraints against the index subtype
        domc = [(l, r) for l in range(-2, 3) for r in range(-2, 3)]
        cons = (lambda D: lambda l, r: (len(rng(D, l, r)) if not rng(D, l, r) or min(l, r) >= 0 else ERR))(D)
        kind('cons_var' + n, "procedure $ is variable v : bit_vector(a %s b); begin res := v'length; end;" % D, cons, domc)
        kind('cons_new' + n, "procedure $ is variable v : pbv; begin v := new bit_vector(a %s b); res := v'length; end;" % D, cons, domc)
        kind('cons_sub' + n, "procedure $ is subtype s is bit_vector(a %s b); variable v : s; begin res := v'length; end;" % D, cons, domc)
        kind('loop' + n, "procedure $ is begin res := 0; for i in natural range a %s b loop res := res + 1; end loop; end;" % D, cons, domc)
        # aggregates
        for (l, r) in SHAPES[D][:1]:
            ix = rng(D, l, r)
            kind('agg_sole' + n, 'procedure $ is variable v : iv(%d %s %d); begin v := (a %s b => 7); res := sumw(v); end;' % (l, D, r, D),
                 (lambda ix, D: lambda i, j: sumw([7 for k in ix]) if len(rng(D, i, j)) == len(ix) else ERR)(ix, D),
                 [(i, j) for i in range(2, 5) for j in range(0, 7)])
    # signals of static shape
    kind('sig_rd', 'procedure $ is begin res := sa(a); end;', lambda i: 0 if 2 <= i <= 4 else ERR, [(i,) for i in range(0, 7)])
    kind('sig_rd_d', 'procedure $ is begin res := sd(a); end;', lambda i: 0 if 2 <= i <= 4 else ERR, [(i,) for i in range(0, 7)])
    kind('sig_wr', 'procedure $ is begin sa(a) <= 0; res := 1; end;', lambda i: 1 if 2 <= i <= 4 else ERR, [(i,) for i in range(0, 7)])
    kind('sig_wr_d', 'procedure $ is begin sd(a) <= 0; res := 1; end;', lambda i: 1 if 2 <= i <= 4 else ERR, [(i,) for i in range(0, 7)])
    kind('sig_ev', "procedure $ is begin res := boolean'pos(sa(a)'event); end;", lambda i: 0 if 2 <= i <= 4 else ERR, [(i,) for i in range(0, 7)])
    d2 = [(i, j) for i in range(1, 6) for j in range(1, 6)]
    kind('sig_slice_rd', 'procedure $ is begin res := sums(sa(a to b)); end;', lambda i, j: 0 if j < i else 100000 * (j - i + 1) if 2 <= i and j <= 4 else ERR, d2)
    kind('sig_slice_rd_d', 'procedure $ is begin res := sums(sd(b downto a)); end;', lambda i, j: 0 if j < i else 100000 * (j - i + 1) if 2 <= i and j <= 4 else ERR, d2)
    d3 = [(i, j, m) for i, j in d2 for m in (0, 1, 2, 3)]
    kind('sig_slice_wr', 'procedure $ is variable w : iv(1 to c) := (others => 0); begin sa(a to b) <= w; res := 1; end;',
         lambda i, j, m: 1 if m == max(0, j - i + 1) and (j < i or (2 <= i and j <= 4)) else ERR, d3)
    kind('sig_slice_wr_d', 'procedure $ is variable w : iv(1 to c) := (others => 0); begin sd(b downto a) <= w; res := 1; end;',
         lambda i, j, m: 1 if m == max(0, j - i + 1) and (j < i or (2 <= i and j <= 4)) else ERR, d3)
    kind('sig_whole', 'procedure $ is variable w : iv(1 to a) := (others => 0); begin sa <= w; res := 1; end;', lambda m: 1 if m == 3 else ERR, [(m,) for m in range(6)])
    # lengths
    mm = [(m,) for m in range(6)]
    nn = [(n, m) for n in range(4) for m in range(5)]
    three = lambda m: 33 if m == 3 else ERR
    same = lambda n, m: n if n == m else ERR
    w = 'variable w : iv(1 to a) := (others => 11);'
    kind('len_assign', 'procedure $ is variable v : iv(1 to a); variable w : iv(5 to 4 + b) := (others => 11); begin v := w; res := v\'length; end;', same, nn)
    kind('len_assign_u', 'procedure $ is variable v : iv(1 to a); variable w : iv(5 to 4 + b) := (others => 11); procedure q(variable x : inout iv; y : iv) is begin x := y; end; begin q(v, w); res := v\'length; end;', same, nn)
    kind('len_static', 'procedure $ is variable v : iv3; %s begin v := w; res := sum(v); end;' % w, three, mm)
    kind('len_init', 'procedure $ is %s procedure q is variable v : iv3 := w; begin res := sum(v); end; begin q; end;' % w, three, mm)
    kind('len_const', 'procedure $ is %s procedure q is constant v : iv3 := w; begin res := sum(v); end; begin q; end;' % w, three, mm)
    kind('len_param', 'procedure $ is %s procedure q(x : iv3) is begin res := sum(x); end; begin q(w); end;' % w, three, mm)
    kind('len_param_out', 'procedure $ is %s procedure q(x : out iv3) is begin x := (11, 11, 11); end; begin q(w); res := sum(w); end;' % w, three, mm)
    kind('len_param_inout', 'procedure $ is %s procedure q(x : inout iv3) is begin res := sum(x); end; begin q(w); end;' % w, three, mm)
    kind('len_ret', 'procedure $ is %s impure function q return iv3 is begin return w; end; begin res := sum(q); end;' % w, three, mm)
    kind('len_qual', "procedure $ is %s begin res := sum(iv3'(w)); end;" % w, three, mm)
    kind('len_conv', 'procedure $ is %s begin res := sum(iv3(w)); end;' % w, three, mm)
    kind('len_conv_dyn', 'procedure $ is %s subtype s is iv(10 to 9 + b); begin res := sum(s(w)); end;' % w, lambda n, m: 11 * n if n == m else ERR, nn)
    kind('len_qual_dyn', "procedure $ is %s subtype s is iv(10 to 9 + b); begin res := sum(s'(w)); end;" % w, lambda n, m: 11 * n if n == m else ERR, nn)
    kind('len_new', "procedure $ is %s variable p : piv3; begin p := new iv3'(w); res := sum(p.all); end;" % w, three, mm)
    kind('len_acc', "procedure $ is %s variable p : piv := new iv(1 to b); begin p.all := w; res := sum(p.all); end;" % w, lambda n, m: 11 * n if n == m else ERR, nn)
    kind('len_field', 'procedure $ is %s variable r : rec3; begin r.f := w; res := sum(r.f); end;' % w, three, mm)
    kind('len_field_agg', 'procedure $ is %s variable r : rec3; begin r := (g => 1, f => w); res := sum(r.f); end;' % w, three, mm)
    kind('len_elem', 'procedure $ is %s variable r : niv(1 to 2); begin r(2) := w; res := sum(r(2)); end;' % w, three, mm)
    kind('len_elem_agg', 'procedure $ is %s variable r : niv(1 to 2); begin r := (w, w); res := sum(r(2)); end;' % w, three, mm)
    kind('len_alias', 'procedure $ is %s procedure q is alias z : iv3 is w; begin res := sum(z); end; begin q; end;' % w, three, mm)
    kind('len_cond', 'procedure $ is variable v : iv3; %s begin v := w when a >= 0 else (1, 2, 3); res := sum(v); end;' % w, three, mm)
    kind('len_and', "procedure $ is variable x : bit_vector(1 to a); variable y : bit_vector(0 to b - 1); function l(x : bit_vector) return integer is begin return x'length; end; begin res := l(x and y); end;", same, nn)
    kind('len_xor_u', "procedure $ is variable x : boolean_vector(1 to a); variable y : boolean_vector(0 to b - 1); function l(x, y : boolean_vector) return integer is variable z : boolean_vector(x'range); begin z := x xor y; return z'length; end; begin res := l(x, y); end;", same, nn)
    kind('len_2d', "procedure $ is variable x : m2(1 to a, 1 to 2) := (others => (others => 1)); variable y : m2(1 to b, 3 to 4) := (others => (others => 2)); begin x := y; res := x'length; end;", same, nn)
    kind('len_2d_b', "procedure $ is variable x : m2(1 to 2, 1 to a) := (others => (others => 1)); variable y : m2(3 to 4, 1 to b) := (others => (others => 2)); begin x := y; res := x'length(2); end;", same, nn)
    kind('len_elem_dyn', "procedure $ is variable x : nest(1 to 2)(1 to a); variable y : iv(1 to b) := (others => 1); begin x(1) := y; res := x(1)'length; end;", same, nn)
    kind('len_nest', "procedure $ is variable x : nest(1 to 2)(1 to a); variable y : nest(3 to 4)(1 to b); begin x := y; res := x(1)'length; end;", same, nn)
    kind('len_aggpos', "procedure $ is variable x : iv(1 to a); begin x := (5, 6); res := sum(x); end;", lambda n: 11 if n == 2 else ERR, mm)
    kind('len_aggpos_others', "procedure $ is variable x : iv(1 to a); begin x := (5, 6, others => 1); res := sum(x); end;", lambda n: 11 + n - 2 if n >= 2 else ERR, mm)
    kind('len_concat', "procedure $ is variable x : iv(1 to 3); variable y : iv(1 to a) := (others => 1); variable z : iv(1 to b) := (others => 2); begin x := y & z; res := sum(x); end;",
         lambda n, m: n + 2 * m if n + m == 3 else ERR, nn)
    kind('len_str', "procedure $ is variable s : string(1 to a); begin s := \"abc\"; res := s'length; end;", lambda n: 3 if n == 3 else ERR, mm)
    # scalar ranges
    SC = {'si': ('a', 'integer', 1), 'sdn': ('a', 'integer', 1), 'st': ('ten(a)', 'ten', 1), 'sr': ('real(a)', 'real', 1), 'sp': ('a * 1 ns', 'time', 1),
          'se': ("color'val(a)", 'color', 1), 'sn': ('a', 'integer', 0)}
    back = {'si': '%s', 'sdn': '%s', 'st': 'integer(%s)', 'sr': 'integer(%s)', 'sp': '%s / 1 ns', 'se': "color'pos(%s)", 'sn': '%s'}
    v7 = [(i,) for i in range(0, 7)]
    for t, (e, base, ne) in SC.items():
        ok = (lambda ne: lambda i: i if ne and 2 <= i <= 4 else ERR)(ne)
        b = lambda x: 'res := ' + back[t] % x + ';'
        x = 'variable x : %s := %s;' % (base, e)
        init = {'si': 'si', 'sdn': 'sdn'}
        if ne:
            kind('rng_var_' + t, 'procedure $ is %s variable v : %s; begin v := x; %s end;' % (x, t, b('v')), ok, v7)
            kind('rng_sig_' + t, 'procedure $ is %s begin sig_%s <= x; res := a; end;' % (x, t), ok, v7)
            kind('rng_elem_' + t, 'procedure $ is %s type tt is array (1 to 2) of %s; variable v : tt; begin v(2) := x; %s end;' % (x, t, b('v(2)')), ok, v7)
            kind('rng_field_' + t, 'procedure $ is %s type tt is record f, g : %s; end record; variable v : tt; begin v.g := x; %s end;' % (x, t, b('v.g')), ok, v7)
            kind('rng_agg_' + t, 'procedure $ is %s type tt is record f, g : %s; end record; variable v : tt; begin v := (x, x); %s end;' % (x, t, b('v.g')), ok, v7)
            kind('rng_aggarr_' + t, 'procedure $ is %s type tt is array (1 to 2) of %s; variable v : tt; begin v := (others => x); %s end;' % (x, t, b('v(2)')), ok, v7)
            kind('rng_out_' + t, 'procedure $ is %s variable v : %s; procedure q(o : out %s) is begin o := x; end; begin q(v); %s end;' % (x, t, base, b('v')), ok, v7)
            kind('rng_inout_' + t, 'procedure $ is %s variable v : %s; procedure q(o : inout %s) is begin o := x; end; begin q(v); %s end;' % (x, t, base, b('v')), ok, v7)
            kind('rng_outf_' + t, 'procedure $ is %s variable v : %s; procedure q(o : out %s) is begin o := x; end; begin q(v); %s end;' % (x, base, t, b('v')), ok, v7)
            kind('rng_proc_in_' + t, 'procedure $ is %s procedure q(o : in %s) is begin %s end; begin q(x); end;' % (x, t, b('o')), ok, v7)
            kind('rng_alloc_' + t, "procedure $ is %s type pt is access %s; variable p : pt; begin p := new %s'(x); %s end;" % (x, t, t, b('p.all')), ok, v7)
            kind('rng_cond_' + t, 'procedure $ is %s variable v : %s; begin v := x when a >= 0 else %s\'left; %s end;' % (x, t, t, b('v')), ok, v7)
        kind('rng_in_' + t, 'procedure $ is %s function q(o : in %s) return %s is begin return o; end; begin %s end;' % (x, t, base, b('q(x)')), ok, v7)
        kind('rng_ret_' + t, 'procedure $ is %s impure function q return %s is begin return x; end; begin %s end;' % (x, t, b('q')), ok, v7)
        kind('rng_const_' + t, 'procedure $ is %s procedure q is constant v : %s := x; begin %s end; begin q; end;' % (x, t, b('v')), ok, v7)
        kind('rng_init_' + t, 'procedure $ is %s procedure q is variable v : %s := x; begin %s end; begin q; end;' % (x, t, b('v')), ok, v7)
        kind('rng_qual_' + t, "procedure $ is %s begin %s end;" % (x, b("%s'(x)" % t)), ok, v7)
        if t != 'se' and t != 'sp':
            kind('rng_conv_' + t, "procedure $ is %s begin %s end;" % (x, b("%s(x)" % t)), ok, v7)
            kind('rng_convr_' + t, "procedure $ is variable x : real := real(a); begin %s end;" % (b("%s(x)" % t)), ok, v7)
        if t not in ('sr', 'sn'):
            asc = t != 'sdn'
            for at, d in (('succ', 1), ('pred', -1), ('leftof', -1 if asc else 1), ('rightof', 1 if asc else -1)):
                kind('att_%s_%s' % (at, t), 'procedure $ is %s begin %s end;' % (x, b("%s'%s(x)" % (t, at))),
                     (lambda d, t: lambda i: i + (d if t != 'sp' else min(d, 0)) if 2 <= i <= 4 and 2 <= i + d <= 4 else ERR)(d, t), v7)
            kind('att_val_%s' % t, 'procedure $ is begin %s end;' % b("%s'val(%s)" % (t, 'a * 1000000' if t == 'sp' else 'a')), ok, v7)
            im = {'si': "integer'image(a)", 'sdn': "integer'image(a)", 'st': "integer'image(a)", 'sp': "integer'image(a) & \" ns\"", 'se': "color'image(color'val(a))"}[t]
            kind('att_value_%s' % t, 'procedure $ is begin %s end;' % b("%s'value(%s)" % (t, im)), ok, v7)
            if t not in ('sp',):
                it = {'st': 'ten(%s)', 'se': "color'val(%s)"}.get(t, '%s')
                kind('loop_%s' % t, 'procedure $ is begin res := 0; for i in %s range %s to %s loop res := res + 1; end loop; end;' % (t, it % 'a', it % 'b'),
                     lambda i, j: 0 if j < i else j - i + 1 if 2 <= i and j <= 4 else ERR, [(i, j) for i in range(0, 7) for j in range(0, 7)])
                kind('cons_%s' % t, "procedure $ is type at is array (%s range <>) of bit; variable v : at(%s to %s); begin res := v'length; end;" % (t, it % 'a', it % 'b'),
                     lambda i, j: 0 if j < i else j - i + 1 if 2 <= i and j <= 4 else ERR, [(i, j) for i in range(0, 7) for j in range(0, 7)])
    kind('succ_base', "procedure $ is variable x : color := color'val(a); begin res := color'pos(color'succ(x)); end;", lambda i: i + 1 if i < 7 else ERR, [(i,) for i in range(8)])
    kind('pred_base', "procedure $ is variable x : color := color'val(a); begin res := color'pos(color'pred(x)); end;", lambda i: i - 1 if i > 0 else ERR, [(i,) for i in range(8)])
    kind('succ_bool', "procedure $ is variable x : boolean := a = 1; begin res := boolean'pos(boolean'succ(x)); end;", lambda i: 1 if i == 0 else ERR, [(0,), (1,)])
    kind('val_base', "procedure $ is begin res := color'pos(color'val(a)); end;", lambda i: i if 0 <= i < 8 else ERR, [(i,) for i in (-257, -256, -1, 0, 1, 7, 8, 9, 255, 256, 257, 65536)])
    kind('val_char', "procedure $ is begin res := character'pos(character'val(a)); end;", lambda i: i if 0 <= i < 256 else ERR, [(i,) for i in (-257, -256, -1, 0, 1, 255, 256, 257, 65536)])
    kind('conv_real_int', "procedure $ is variable x : real := real(a) * 1.0e9; begin res := integer(x) / 1000000000; end;", lambda i: (abs(i) * (1 if i > 0 else -1)) if -2 <= i <= 2 else ERR, [(i,) for i in range(-5, 6)])
    kind('null_all', "procedure $ is variable p : pint; begin if a = 0 then p := new integer'(5); end if; res := p.all; end;", lambda i: 5 if i == 0 else ERR, [(0,), (1,)])
    kind('null_wr', "procedure $ is variable p : pint; begin if a = 0 then p := new integer'(5); end if; p.all := 6; res := 6; end;", lambda i: 6 if i == 0 else ERR, [(0,), (1,)])
    kind('null_arr', "procedure $ is variable p : piv; begin if a = 0 then p := new iv(1 to 2); end if; p(1) := 6; res := p(1); end;", lambda i: 6 if i == 0 else ERR, [(0,), (1,)])
    kind('null_len', "procedure $ is variable p : piv; begin if a = 0 then p := new iv(1 to 2); end if; res := p'length; end;", lambda i: 2 if i == 0 else ERR, [(0,), (1,)])
    kind('null_rec', "procedure $ is variable p : prec; begin if a = 0 then p := new rec'(x => 1, y => 2); end if; res := p.y; end;", lambda i: 2 if i == 0 else ERR, [(0,), (1,)])
    kind('null_dealloc', "procedure $ is variable p : pint; begin p := new integer'(5); if a = 1 then deallocate(p); end if; res := p.all; end;", lambda i: 5 if i == 0 else ERR, [(0,), (1,)])
    kind('delay', "procedure $ is begin sig_d <= 1 after a * 1 ns; res := a; end;", lambda i: i if i >= 0 else ERR, [(i,) for i in range(-2, 3)])
    kind('wait', "procedure $ is begin wait for a * 1 fs; res := a; end;", lambda i: i if i >= 0 else ERR, [(i,) for i in range(-2, 3)])
    kind('force', "procedure $ is begin sig_si <= force a; wait for 0 ns; wait for 0 ns; res := a; sig_si <= release; wait for 0 ns; end;", lambda i: i if 2 <= i <= 4 else ERR, v7)
    kind('concat_idx', "procedure $ is variable x : small(0 to a - 1); variable y : small(0 to b - 1); function l(x : small) return integer is begin return x'length; end; begin res := l(x & y); end;",
         lambda n, m: n + m if n + m <= 4 else ERR, [(n, m) for n in range(1, 5) for m in range(1, 5)])
    kind('exp_neg', "procedure $ is begin res := 2 ** a; end;", lambda i: 2 ** i if i >= 0 else ERR, [(i,) for i in range(-3, 4)])
    # value range inference: static bounds, index expressions with inferred ranges
    forms = ['x', 'x + 1', 'x - 1', '-x', 'x * 2', 'x / 2', 'x mod 3', 'x rem 3', 'abs x', 'x mod (-3)', 'x ** 2', '2 - x', 'x * (-1) + 3',
             'maximum(x, 1)', 'minimum(x, 2)', "boolean'pos(x > 1)", '(x mod 4) - (x mod 2)', '1 + (x rem 2)', 'x * x', '-(x mod 4)', '(x + x) / 3']

    def tdiv(a, b):
        q = abs(a) // abs(b)
        return q if (a < 0) == (b < 0) else -q
    pf = [lambda x: x, lambda x: x + 1, lambda x: x - 1, lambda x: -x, lambda x: x * 2, lambda x: tdiv(x, 2), lambda x: x % 3, lambda x: x - 3 * tdiv(x, 3), abs, lambda x: x % -3,
          lambda x: x ** 2, lambda x: 2 - x, lambda x: 3 - x, lambda x: max(x, 1), lambda x: min(x, 2), lambda x: int(x > 1), lambda x: x % 4 - x % 2,
          lambda x: 1 + x - 2 * tdiv(x, 2), lambda x: x * x, lambda x: -(x % 4), lambda x: tdiv(2 * x, 3)]
    k = 0
    for fx, f in zip(forms, pf):
        for (lo, hi) in ((-2, 4), (0, 3), (-3, -1), (1, 5)):
            for (D, l, r) in (('to', 0, 2), ('downto', 3, 1), ('to', -2, 0), ('to', 1, 4)):
                ix = rng(D, l, r)
                k += 1
                dom = [(i,) for i in range(lo, hi + 1)]
                kind('inf%d_idx' % k, 'procedure $ is variable x : integer range %d to %d := a; variable v : iv(%d %s %d); begin v(%s) := 3; res := v(%s); end;' % (lo, hi, l, D, r, fx, fx),
                     (lambda f, ix: lambda i: 3 if f(i) in ix else ERR)(f, ix), dom, decl='%s, x in %d to %d, array (%d %s %d)' % (fx, lo, hi, l, D, r))
                kind('inf%d_rng' % k, 'procedure $ is variable x : integer range %d to %d := a; variable v : integer range %d to %d; begin v := %s; res := v; end;' % (lo, hi, min(ix), max(ix), fx),
                     (lambda f, ix: lambda i: f(i) if f(i) in ix else ERR)(f, ix), dom, decl='%s, x in %d to %d, target %d to %d' % (fx, lo, hi, min(ix), max(ix)))
    # loops
    for D in ('to', 'downto'):
        kind('loop_idx_' + D, 'procedure $ is variable v : iv(2 to 4); begin res := 0; for i in a %s b loop v(i) := i; res := res * 10 + v(i); end loop; end;' % D,
             (lambda D: lambda i, j: (int(''.join(map(str, rng(D, i, j))) or 0) if all(2 <= q <= 4 for q in rng(D, i, j)) else ERR))(D), [(i, j) for i in range(1, 6) for j in range(1, 6)])
        kind('loop_rng_' + D, "procedure $ is variable v : iv(2 to 4); variable u : iv(a to b); begin res := 0; for i in u'range loop v(i) := 1; res := res + v(i); end loop; end;",
             lambda i, j: (j - i + 1 if i >= 2 and j <= 4 else ERR) if i <= j else 0, [(i, j) for i in range(1, 6) for j in range(1, 6)])
    kind('while_idx', 'procedure $ is variable v : iv(2 to 4); variable i : integer := a; begin res := 0; while i <= b loop v(i) := 1; i := i + 1; res := res + 1; end loop; end;',
         lambda i, j: (j - i + 1 if i >= 2 and j <= 4 else ERR) if i <= j else 0, [(i, j) for i in range(1, 6) for j in range(1, 6)])
    kind('twice', 'procedure $ is variable v : iv(2 to 4); variable i : integer := a; begin v(i) := 1; i := b; v(i) := 2; res := v(i); end;',
         lambda i, j: 2 if 2 <= i <= 4 and 2 <= j <= 4 else ERR, [(i, j) for i in range(1, 6) for j in range(1, 6)])
    kind('branch', 'procedure $ is variable v : iv(2 to 4); variable i : integer := a; begin if b = 1 then v(i) := 1; end if; v(i) := 2; res := v(i); end;',
         lambda i, j: 2 if 2 <= i <= 4 else ERR, [(i, j) for i in range(1, 6) for j in range(0, 2)])
    kind('two_arr', 'procedure $ is variable v : iv(2 to 4); variable u : iv(a to b); begin v(c) := 1; u(c) := 2; res := u(c); end;',
         lambda a, b, i: 2 if 2 <= i <= 4 and a <= i <= b else ERR, [(a, b, i) for a in (1, 3) for b in (3, 5) for i in range(1, 6)])


def design(sel):
    procs, calls, decl = [], [], []
    for k in sel:
        name, code, ref, dom, _ = KINDS[k]
        procs.append('    ' + code.replace('$', 'k%d(a, b, c, d, e : integer)' % k).replace(' end;', ' end procedure;', 0))
        calls.append('when %d => k%d(a, b, c, d, e);' % (k, k))
    return HEAD + '''  p: process
    variable res : integer;
%s
    file f : tfile;
    file o : tfile open write_mode is "o.bin";
    variable n, k, a, b, c, d, e : integer;
  begin
    file_open(f, "c.bin", read_mode);
    while not endfile(f) loop
      read(f, k); read(f, a); read(f, b); read(f, c); read(f, d); read(f, e);
      case k is
        %s
        when others => null;
      end case;
      write(o, k);
      write(o, res);
      flush(o);
    end loop;
    wait;
  end process;
end architecture;
''' % ('\n'.join(procs), '\n        '.join(calls))


def lit_design(accs):
    """The accesses with literals in place of the arguments."""
    procs, calls = [], []
    for j, (k, t) in enumerate(accs):
        code = KINDS[k][1].replace('procedure $', 'procedure k%d' % j)
        for n, v in zip('abcde', t):
            code = re.sub(r"(?<![\w'])%s(?![\w'])" % n, str(v) if v >= 0 else '(%d)' % v, code)
        procs.append('    ' + code)
        calls.append('    k%d; write(o, res); flush(o);' % j)
    return HEAD + '''  p: process
    variable res : integer;
%s
    file o : tfile open write_mode is "o.bin";
  begin
%s
    wait;
  end process;
end architecture;
''' % ('\n'.join(procs), '\n'.join(calls))


HEAD = '''entity t is end entity;
architecture a of t is
  type iv is array (integer range <>) of integer;
  type piv is access iv;
  subtype iv3 is iv(1 to 3);
  type piv3 is access iv3;
  type niv is array (natural range <>) of iv3;
  type rec is record x, y : integer; end record;
  type prec is access rec;
  type rv is array (integer range <>) of rec;
  type rec3 is record g : integer; f : iv3; end record;
  type nest is array (integer range <>) of iv;
  type m2 is array (integer range <>, integer range <>) of integer;
  type pint is access integer;
  type pbv is access bit_vector;
  subtype sidx is integer range 0 to 3;
  type small is array (sidx range <>) of integer;
  type ten is range -10 to 10;
  type color is (c0, c1, c2, c3, c4, c5, c6, c7);
  subtype si is integer range 2 to 4;
  subtype sdn is integer range 4 downto 2;
  subtype sn is integer range 4 to 2;
  subtype st is ten range 2 to 4;
  subtype sr is real range 2.0 to 4.0;
  subtype sp is time range 2 ns to 4 ns;
  subtype se is color range c2 to c4;
  signal sig_si : si; signal sig_sdn : sdn; signal sig_st : st; signal sig_sr : sr; signal sig_sp : sp; signal sig_se : se;
  signal sig_d : integer;
  signal sa : iv(2 to 4) := (others => 0);
  signal sd : iv(4 downto 2) := (others => 0);
  type tfile is file of integer;
  function sumw(v : iv) return integer is variable r, n : integer := 0; begin
    for k in v'range loop n := n + 1; r := r + n * v(k); end loop; return r; end function;
  function sums(v : iv) return integer is variable r : integer := 0; begin
    for k in v'range loop r := r + v(k); end loop; return r + v'length * 100000; end function;
  function sum(v : iv) return integer is variable r : integer := 0; begin
    for k in v'range loop r := r + v(k); end loop; return r; end function;
  function rdu(v : iv; c : integer) return integer is begin return v(c); end function;
  procedure wru(v : inout iv; c : integer) is begin v(c) := 777; end procedure;
begin
'''


def main():
    c = vf.Check('P09', 'model_checking')
    c.build()
    build_kinds(c.thorough)
    sel = range(len(KINDS))
    # sizes: split in designs of moderate size
    only = os.environ.get('VERIF_ONLY')
    groups = {}
    for k in sel:
        n = KINDS[k][0]
        if only and not any(o in n for o in only.split(',')):
            continue
        g = 'inf%d' % (k % 4) if n.startswith('inf') else 'main%d' % (k % 3)
        groups.setdefault(g, []).append(k)
    legal, illegal = {}, {}
    for k in sel:
        name, code, ref, dom, _ = KINDS[k]
        for t in dom:
            r = ref(*t)
            tt = tuple(t) + (0,) * (5 - len(t))
            if r is ERR:
                illegal.setdefault(k, []).append(tt)
            else:
                legal.setdefault(k, []).append((tt, r))

    def elab(gm):
        g, m = gm
        d = c.dir('%s-%s' % (g, m))
        open(d + '/t.vhd', 'w').write(design(groups[g]))
        r = c.nvc(['-a', 't.vhd', '-e'] + (['--jit'] if m == 'jit' else []) + ['t'], d, timeout=400)
        if r.rc:
            return g, m, d, r.out
        return g, m, d, None
    el = c.pmap(elab, [(g, m) for g in groups for m in ('aot', 'jit')])
    bad = [(g, m, o) for g, m, d, o in el if o]
    for g, m, o in bad:
        c.violation('compile:' + g, 'the design of the legal accesses (%s, %s) is refused: %s' % (g, m, o[:2000]), {'t.vhd': design(groups[g])})
    if bad:
        c.finish({'states': 0, 'exhaustive': False})
    c.log('elaborated %d designs' % len(el))
    loc = threading.local()

    def sim(d, tuples, base):
        w = getattr(loc, 'd', None)
        if w is None:
            w = loc.d = c.dir('w%d' % threading.get_ident())
        for f in ('c.bin', 'o.bin'):
            if os.path.exists(w + '/' + f):
                os.unlink(w + '/' + f)
        open(w + '/c.bin', 'wb').write(b''.join(struct.pack('<6i', *t) for t in tuples))
        r = c.nvc(['-r', 't'], w, work=d + '/work', timeout=60)
        o = open(w + '/o.bin', 'rb').read() if os.path.exists(w + '/o.bin') else b''
        return r, struct.unpack('<%di' % (len(o) // 4), o[:len(o) // 4 * 4])
    nleg = nill = 0

    def say(k, t):
        name, code, ref, dom, note = KINDS[k]
        return '%s%s%s  [%s]' % (name, t[:len(dom[0])], ' (%s)' % note if note else '', code.split('begin', 1)[1].strip()[:160])

    def report(k, m, t, what, out):
        key = '%s:%s' % (re.sub(r'_(to|downto|s[a-z]{1,2})$', '', KINDS[k][0]) if not KINDS[k][0].startswith('inf') else KINDS[k][0].split('_')[1] + '-inferred',
                         what.split(':')[0].replace(' ', '-'))
        c.violation(key, '%s, %s: %s\n%s' % (say(k, t), m, what, out[-600:]), {'procedure.txt': KINDS[k][1] + '\narguments a, b, c, d, e = %s\n' % (t,), 't.vhd': design([k])})
    for g, m, d, _ in el:
        ks = groups[g]
        todo = [(k, t, r) for k in ks for t, r in legal.get(k, [])]
        nleg += len(todo)
        rounds = 0
        while todo and rounds < 12:
            rounds += 1
            r, o = sim(d, [(k,) + t for k, t, _ in todo], None)
            got = list(zip(o[::2], o[1::2]))
            nxt = None
            for i, (k, t, x) in enumerate(todo):
                if i >= len(got):
                    report(k, m, t, 'legal access rejected: expected result %s' % x, r.out)
                    nxt = i + 1
                    break
                if got[i] != (k, x):
                    report(k, m, t, 'wrong result: expected %s got %s' % (x, got[i][1]), r.out)
            if nxt is None:
                if r.rc:
                    c.violation('legal-exit', 'simulation of legal accesses only ends with exit status %s: %s' % (r.rc, r.out[-500:]))
                break
            todo = [x for x in todo[nxt:]]
    c.log('%d legal accesses' % nleg)
    jobs = [(d, m, k, t) for g, m, d, _ in el for k in groups[g] for t in illegal.get(k, [])]
    if not c.thorough:
        # every illegal access in one of the modes, every third in both
        jobs = [j for i, j in enumerate(jobs) if (hash_(j[2:]) % 2 == (j[1] == 'aot')) or hash_(j[2:]) % 10 == 0]

    def one(j):
        d, m, k, t = j
        r, o = sim(d, [(k,) + t], None)
        if r.timed_out:
            return 'no answer'
        if o:
            return 'not caught: result %d' % o[1]
        if r.rc != 1 or 'Caught' in r.out or 'Assertion' in r.out:
            return 'crash: exit status %s %s' % (r.rc, r.out[-300:])
        if not re.search(r'\*\* (Fatal|Error|Failure)', r.out):
            return 'no message: ' + r.out[-200:]
        return None
    res = c.pmap(one, jobs, 10)
    for j, x in zip(jobs, res):
        if x:
            report(j[2], j[1], j[3], x, '')
    nill = len(jobs)
    c.log('%d illegal accesses' % nill)
    # literal operands
    leg = [(k, t, r) for k in sel for t, r in legal.get(k, []) if groups_has(groups, k) and (c.thorough or not KINDS[k][0].startswith('inf') or hash_((k, t)) % 4 == 0)]
    chunks = [leg[i:i + 120] for i in range(0, len(leg), 120)]

    def lit(accs):
        w = c.dir('l%d' % threading.get_ident())
        if os.path.exists(w + '/o.bin'):
            os.unlink(w + '/o.bin')
        open(w + '/t.vhd', 'w').write(lit_design(accs))
        r = c.nvc(['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r'], w, timeout=120)
        o = open(w + '/o.bin', 'rb').read() if os.path.exists(w + '/o.bin') else b''
        return r, struct.unpack('<%di' % (len(o) // 4), o[:len(o) // 4 * 4])

    def litleg(ch):
        bad = []
        todo = [ch]
        while todo:
            cur = todo.pop()
            r, o = lit([(k, t) for k, t, _ in cur])
            if r.rc == 0 and len(o) == len(cur):
                bad += [(k, t, 'wrong result: literal operands expected %s got %s' % (x, g), '') for (k, t, x), g in zip(cur, o) if g != x]
            elif len(cur) == 1:
                bad.append((cur[0][0], cur[0][1], 'legal access rejected: literal operands, expected result %s' % cur[0][2], r.out))
            elif len(bad) < 20:
                todo += [cur[:len(cur) // 2], cur[len(cur) // 2:]]
        return bad
    for bad in c.pmap(litleg, chunks):
        for k, t, what, out in bad:
            report(k, 'literal', t, what, out)
    c.log('%d legal accesses with literals' % len(leg))
    ill = [(k, t) for k in sel for t in illegal.get(k, []) if groups_has(groups, k)]
    if not c.thorough:
        ill = [x for x in ill if not KINDS[x[0]][0].startswith('inf') or hash_(x) % 6 == 0]

    def litill(j):
        k, t = j
        r, o = lit([j])
        if r.timed_out:
            return 'no answer: literal operands'
        if o:
            return 'not caught: literal operands, result %d' % o[0]
        if r.rc != 1 or 'Caught' in r.out or 'Assertion' in r.out:
            return 'crash: literal operands, exit status %s %s' % (r.rc, r.out[-300:])
        if not re.search(r'\*\* (Fatal|Error|Failure)', r.out):
            return 'no message: literal operands ' + r.out[-200:]
        return None
    for (k, t), x in zip(ill, c.pmap(litill, ill)):
        if x:
            report(k, 'literal', t, x, '')
    c.log('%d illegal accesses with literals' % len(ill))
    nleg += len(leg)
    nill += len(ill)
    c.finish({'states': nleg + nill, 'transitions': nleg + nill, 'traces_validated_against_impl': nleg + nill, 'kinds': len(KINDS), 'legal': nleg, 'illegal': nill, 'exhaustive': True,
              'samples': [say(*x) for x in [(k, illegal[k][0]) for k in list(illegal)[::37]][:8]]})


def groups_has(groups, k):
    return any(k in g for g in groups.values())


def hash_(t):
    k, a = t
    return k * 7 + sum((i + 3) * v for i, v in enumerate(a))


if __name__ == '__main__':
    vf.main(main)
