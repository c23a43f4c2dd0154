#!/usr/bin/env python3
"""P29: files behave like sequential byte streams.

Model: a small file system and file objects with mode and position.

Enumeration:
 A  every sequence of operations (open in each mode, close, write, read,
    endfile, flush) on two file objects and two external files, up to a depth;
 B  the same for one object with the VHDL-2019 positioning operations;
 E  every operation that is an error in a state reached by a sequence of up to
    two operations (one run each);
 C  element types of every size, unconstrained array writes and reads of every
    split;
 D  textio line reading for every short content over characters and line
    separators, and lines around the internal buffer sizes;
 F  files declared in subprograms with every kind of exit.
All sequences of A and B run inside one simulation each that interprets scripts.
"""
import os, re, sys, itertools, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

# ---------------------------------------------------------------- design A/B

INTERP = '''use std.textio.all;
entity t is end entity;
architecture a of t is
  type cf is file of character;
begin
  p: process
    file s : text open read_mode is "script";
    file o : text open write_mode is "log";
    file f, g : cf;
    variable l, m : line;
    variable ch : character;
    variable i : integer;
    variable n : integer := 0;
    procedure reset is
      file x : cf;
    begin
      file_open(x, "fa", write_mode);
      write(x, 'x'); write(x, 'y'); write(x, 'z');
      file_close(x);
      file_open(x, "fb", write_mode);
    end procedure;
    procedure dump(name : string) is
      file x : cf open read_mode is name;
      variable c : character;
    begin
      write(m, '=');
      while not endfile(x) loop
        read(x, c);
        if c = nul then c := '0'; end if;
        write(m, c);
      end loop;
    end procedure;
    procedure opn(file h : cf; name : string; c : character) is
      variable st : file_open_status;
    begin
      case c is
        when 'r' => file_open(st, h, name, read_mode);
        when 'w' => file_open(st, h, name, write_mode);
        when 'a' => file_open(st, h, name, append_mode);
        $OPEN
        when others => null;
      end case;
      write(m, 'S'); write(m, file_open_status'pos(st));
    end procedure;
    procedure plain(file h : cf; name : string; c : character) is
    begin
      case c is
        when 'r' => file_open(h, name);
        when 'w' => file_open(h, name, write_mode);
        when 'a' => file_open(h, name, append_mode);
        when others => null;
      end case;
    end procedure;
    procedure op(file h : cf; c, d : character) is
    begin
      case c is
        when 'a' => opn(h, "fa", d);
        when 'b' => opn(h, "fb", d);
        when 'n' => opn(h, "nodir/x", d);
        when 'e' => opn(h, "", d);
        when 'A' => plain(h, "fa", d);
        when 'N' => plain(h, "nodir/x", d);
        when 'c' => file_close(h);
        when 'w' => write(h, d);
        when 'r' => read(h, ch); write(m, ch);
        when 'E' => write(m, 'E'); write(m, boolean'pos(endfile(h)));
        when 'F' => flush(h);
        $OPS
        when others => report "bad op" severity failure;
      end case;
    end procedure;
  begin
    while not endfile(s) loop
      readline(s, l);
      reset;
      i := 1;
      m := new string'("");
      while i <= l'length loop
        if l(i) = 'g' then op(g, l(i + 1), l(i + 2));
        else op(f, l(i + 1), l(i + 2)); end if;
        i := i + 3;
      end loop;
      file_close(f); file_close(g);
      dump("fa"); dump("fb");
      writeline(o, m);
      n := n + 1;
    end loop;
    report "done";
    wait;
  end process;
end architecture;
'''
A = INTERP.replace('$OPEN', '').replace('$OPS', '')
B = INTERP.replace('$OPEN', "when '+' => file_open(st, h, name, read_write_mode);").replace('$OPS', '''
        when 'R' => file_rewind(h);
        when '0' => file_seek(h, character'pos(d) - 48);
        when '1' => file_seek(h, character'pos(d) - 50, file_origin_current);
        when '2' => file_seek(h, 48 - character'pos(d), file_origin_end);
        when 't' => file_truncate(h, character'pos(d) - 48);
        when 'T' => file_truncate(h, character'pos(d) - 50, file_origin_current);
        when 'U' => file_truncate(h, 48 - character'pos(d), file_origin_end);
        when 'p' => write(m, 'p'); write(m, file_position(h));
        when 'q' => write(m, 'q'); write(m, file_position(h, file_origin_end));
        when 'k' => write(m, 'k'); write(m, file_position(h, file_origin_current));
        when 's' => write(m, 's'); write(m, file_size(h));
        when 'm' => write(m, 'm'); write(m, file_open_kind'pos(file_mode(h)));
        when 'o' => write(m, 'o'); write(m, file_open_state'pos(file_state(h)));
        when 'k' => write(m, 'k'); write(m, boolean'pos(file_canseek(h)));
'''.replace("when 'k' => write(m, 'k'); write(m, boolean", "when 'K' => write(m, 'K'); write(m, boolean"))


class Err(Exception):
    pass


class Prune(Exception):
    pass


class St:
    __slots__ = ('fs', 'obj', 'out', 'nw')

    def __init__(s):
        s.fs = {'a': 'xyz', 'b': ''}
        s.obj = {'f': None, 'g': None}     # [name, mode, pos, pending]
        s.out = ''
        s.nw = 0

    def copy(s):
        r = St()
        r.fs = dict(s.fs)
        r.obj = {k: (list(v) if v else None) for k, v in s.obj.items()}
        r.out, r.nw = s.out, s.nw
        return r


def step(st, tok):
    """Executes one three character operation; modifies st."""
    h, c, d = tok
    o = st.obj[h]
    other = st.obj['g' if h == 'f' else 'f']
    need = {'r': 'r+', 'w': 'wa+'}
    if c in 'abneAN':
        if o:
            if c in 'AN':
                raise Err('file object already associated')
            st.out += 'S1'
            return
        if c in 'neN':
            if c == 'N':
                raise Err('failed to open')
            st.out += 'S2'
            return
        name = c.lower()
        if other and other[0] == name:
            # What one object sees of unflushed changes made through another is not defined
            if d == 'r' and other[1] == 'r':
                pass
            elif d == 'r' and not other[3] and other[1] != 'r':
                pass
            else:
                raise Prune
        if d == 'w':
            st.fs[name] = ''
        st.obj[h] = [name, d, 0 if d != 'a' else len(st.fs[name]), False]
        if c in 'ab':
            st.out += 'S0'
        return
    if c == 'c':
        st.obj[h] = None
        return
    if c == 'o':
        st.out += 'o0' if o else 'o1'
        return
    if not o:
        raise Err('closed file')
    data = st.fs[o[0]]
    if c == 'w':
        if o[1] == 'r':
            raise Err('write to file failed')
        if other and other[0] == o[0]:
            raise Prune
        if o[1] == 'a':
            o[2] = len(data)
        if o[2] > len(data):
            raise Prune
        st.fs[o[0]] = data[:o[2]] + d + data[o[2] + 1:]
        o[2] += 1
        o[3] = True
    elif c == 'r':
        if o[1] in 'wa':
            raise Err('read from file failed')
        if o[2] >= len(data):
            raise Prune
        st.out += data[o[2]]
        o[2] += 1
    elif c == 'E':
        st.out += 'E1' if o[1] in 'wa' or o[2] >= len(data) else 'E0'
    elif c == 'F':
        if o[1] == 'r':
            raise Prune
        o[3] = False
    elif c == 'm':
        st.out += 'm%d' % 'rwa+'.index(o[1])
    elif c == 's':
        st.out += 's%d' % len(data)
    elif c == 'K':
        st.out += 'K1'
    elif c == 'k':
        st.out += 'k0'
    elif o[1] == 'a':
        raise Prune             # positions of a file opened for appending
    elif c == 'p':
        st.out += 'p%d' % o[2]
    elif c == 'q':
        st.out += 'q%d' % (len(data) - o[2])
    elif c in 'R012':
        n = 0 if c == 'R' else {'0': ord(d) - 48, '1': o[2] + ord(d) - 50, '2': len(data) + 48 - ord(d)}[c]
        if n < 0:
            raise Err('FILE_SEEK failed')
        if n > len(data):
            raise Prune
        o[2] = n
    elif c in 'tTU':
        n = {'t': ord(d) - 48, 'T': o[2] + ord(d) - 50, 'U': len(data) + 48 - ord(d)}[c]
        if o[1] == 'r' or n < 0:
            raise Err('FILE_TRUNCATE failed')
        if n > len(data):
            raise Prune
        if c == 'U' and o[2] < n:
            raise Prune         # whether the position moves is not defined
        st.fs[o[0]] = data[:n]
        o[2] = min(o[2], n)
    else:
        assert 0, tok


def alphabet_a(h):
    return [h + x for x in ['ar', 'aw', 'aa', 'br', 'bw', 'ba', 'nr', 'er', 'c ', 'w?', 'r ', 'E ', 'F ']]


ALPHA_B = ['f' + x for x in ['ar', 'aw', 'aa', 'a+', 'c ', 'w?', 'r ', 'E ', 'F ', 'R ', '00', '01', '02', '03', '11', '12', '13', '20', '21', '22', '23',
                              't0', 't1', 't2', 'T1', 'T2', 'U0', 'U1', 'U2', 'p ', 'q ', 's ', 'm ', 'o ', 'k ', 'K ']]
ALPHA_B2 = ['f' + x for x in ['w?', 'r ', 'E ', 'F ', 'R ', '01', '11', '13', '20', '21', 't1', 'T1', 'T2', 'U1', 'p ', 'q ', 's ']]


def explore(start, alpha, depth):
    """Yields (script, expected) for every maximal legal sequence; collects errors and states."""
    leaves, states, trans = [], set(), 0

    def go(seq, st, d):
        nonlocal trans
        if d == 0:
            leaves.append((''.join(seq), st.out, st.fs['a'], st.fs['b']))
            return
        ext = False
        for t in alpha:
            if t[1] == 'w':
                t = t[:2] + chr(48 + st.nw)
            s2 = st.copy()
            if t[1] == 'w':
                s2.nw += 1
            try:
                step(s2, t)
            except (Err, Prune):
                continue
            trans += 1
            ext = True
            states.add((s2.fs['a'], s2.fs['b'], repr(s2.obj)))
            go(seq + [t], s2, d - 1)
        if not ext:
            leaves.append((''.join(seq), st.out, st.fs['a'], st.fs['b']))
    st = St()
    for t in start:
        step(st, t)
    go(list(start), st, depth)
    return leaves, states, trans


def errors(alpha, start, depth):
    out = {}

    def go(seq, st, d):
        for t in alpha:
            if t[1] == 'w':
                t = t[:2] + '!'
            s2 = st.copy()
            try:
                step(s2, t)
            except Prune:
                continue
            except Err as e:
                # one per reached state and operation
                out.setdefault((repr(st.obj), st.fs['a'], t), (''.join(seq + [t]), str(e)))
                continue
            if d:
                go(seq + [t], s2, d - 1)
    st = St()
    for t in start:
        step(st, t)
    go(list(start), st, depth)
    return list(out.values())


# ---------------------------------------------------------------- C: element types

TYPES = [
    # declaration, element type, values (VHDL), bytes per element
    ('', 'boolean', ['false', 'true', 'true', 'false']),
    ('', 'bit', ["'1'", "'0'", "'0'", "'1'"]),
    ('', 'character', ["'a'", "nul", "lf", "character'val(255)", "cr", "character'val(26)"]),
    ('', 'integer', ['0', '-1', 'integer\'low', 'integer\'high', '10', '256']),
    ('type sm is range -100 to 100;', 'sm', ['-100', '100', '0', '10']),
    ('type md is range 0 to 40000;', 'md', ['40000', '0', '256', '10']),
    ('type un is range 0 to 255;', 'un', ['255', '0', '10', '26']),
    ('type wd is range -3000000000 to 3000000000;', 'wd', ['3000000000', '-3000000000', '0', '4294967']),
    ('', 'time', ['0 fs', '1 hr', '-1 ns', 'time\'high']),
    ('', 'real', ['0.0', '-1.5', 'real\'high', 'real\'low', '1.0e-300']),
    ('type en is (e0, e1, e2);', 'en', ['e2', 'e0', 'e1']),
    ('subtype sv is bit_vector(5 downto 3);', 'sv', ['"101"', '"010"', '"111"']),
    ('type ia is array (1 to 3) of integer;', 'ia', ['(1, 2, 3)', "(-1, 0, integer'high)", '(others => 7)']),
    ('type rc is record a : bit; b : integer; c : character; d : real; end record;', 'rc', ["('1', 77, 'c', 2.5)", "('0', -1, nul, -0.5)"]),
    ('type rv is record a : bit_vector(1 to 3); b : boolean; e : bit_vector(0 to 0); end record;', 'rv', ['("101", true, "1")', '("010", false, "0")']),
    ('type r1 is record x : bit; y : integer; end record; type ra is array (1 to 2) of r1;', 'ra', ["(('1', 5), ('0', 6))", "(('0', -5), ('1', -6))"]),
    ('type e9 is (%s);' % ', '.join('v%d' % i for i in range(300)), 'e9', ['v0', 'v255', 'v256', 'v299']),
]


def types_design():
    decl, body = [], []
    for i, (d, t, vals) in enumerate(TYPES):
        decl.append(d)
        decl.append('type f%d is file of %s; type a%d is array (natural range <>) of %s;' % (i, t, i, t))
        decl.append('constant k%d : a%d(0 to %d) := (%s);' % (i, i, len(vals) - 1, ', '.join('%d => %s' % x for x in enumerate(vals))))
        body.append('''
  b%d: process
    file f : f%d;
    variable v : %s;
    variable st : file_open_status;
    variable n : natural;
  begin
    -- all the values in each of the orders given by a rotation, then read back
    for r in k%d'range loop
      for mode in 0 to 2 loop
        file_open(st, f, "t%d", write_mode);
        assert st = open_ok report "open %d" severity error;
        for j in k%d'range loop
          write(f, k%d((j + r) mod k%d'length));
          if mode = 1 then flush(f); end if;
          if mode = 2 then file_close(f); file_open(f, "t%d", append_mode); end if;
        end loop;
        file_close(f);
        file_open(f, "t%d", read_mode);
        n := 0;
        while not endfile(f) loop
          read(f, v);
          assert v = k%d((n + r) mod k%d'length) report "value %d " & integer'image(n) severity error;
          n := n + 1;
        end loop;
        file_close(f);
        assert n = k%d'length report "count %d " & integer'image(n) severity error;
      end loop;
    end loop;
    wait;
  end process;''' % ((i, i, t) + (i,) * 13))
    return 'package pk is\n%s\nend package;\nuse work.pk.all;\nentity t is end entity;\narchitecture a of t is\nbegin%s\nend architecture;\n' % (
        '\n'.join(decl), '\n'.join(body))


UNC = [('bit_vector', 'bit', "bit'val(%s mod 2)"), ('string', 'character', "character'val(%s + 65)"), ('integer_vector', 'integer', '%s * 1000003'),
       ('real_vector', 'real', 'real(%s) * 1.5'), ('time_vector', 'time', '%s * 1 ns'), ('boolean_vector', 'boolean', '((%s / 2) mod 2 = 1)'),
       ('wv', 'rec', "(%s, bit'val(%s mod 2))")]


def unc_design(lens):
    """Writes of lengths (a, b, c), reads of lengths (p, q, r, s): the stream of elements is preserved"""
    procs = []
    for i, (vt, et, val) in enumerate(UNC):
        ev = val.replace('%s', '(j)')
        procs.append('''
  p%(i)d: process
    type ft is file of %(vt)s;
    procedure run(a, b, c, p, q, r : natural; down : boolean) is
      file f : ft;
      variable pos, n : natural := 0;
      procedure w(k : natural) is
        variable u : %(vt)s(k downto 1);
        variable v : %(vt)s(1 to k);
      begin
        for x in 0 to k - 1 loop
          for j in pos to pos loop
            v(x + 1) := %(ev)s; u(k - x) := %(ev)s;
          end loop;
          pos := pos + 1;
        end loop;
        if down then write(f, u); else write(f, v); end if;
      end procedure;
      procedure rd(k : natural; total : natural) is
        variable v : %(vt)s(1 to k);
        variable u : %(vt)s(k downto 1);
        variable len, want : natural;
        variable same : boolean := true;
      begin
        if down then read(f, u, len); else read(f, v, len); end if;
        want := minimum(k, total - pos);
        assert len = want report "length %(vt)s " & to_string(a) & to_string(b) & to_string(c) & " " & to_string(p) & to_string(q) & to_string(r) & " got " & to_string(len) & " expected " & to_string(want) severity error;
        for x in 1 to want loop
          for j in pos to pos loop
            if down then same := same and u(k + 1 - x) = %(ev)s; else same := same and v(x) = %(ev)s; end if;
          end loop;
          pos := pos + 1;
        end loop;
        assert same report "data %(vt)s " & to_string(a) & to_string(b) & to_string(c) & " " & to_string(p) & to_string(q) & to_string(r) severity error;
      end procedure;
    begin
      file_open(f, "u%(i)d", write_mode);
      w(a); w(b); w(c);
      file_close(f);
      file_open(f, "u%(i)d", read_mode);
      pos := 0;
      rd(p, a + b + c); rd(q, a + b + c); rd(r, a + b + c);
      assert endfile(f) = (pos >= a + b + c) report "endfile %(vt)s" severity error;
    end procedure;
  begin
    for a in 0 to %(n)d loop for b in 0 to %(n)d loop for c in 0 to %(n)d loop
      for p in 0 to %(n)d loop for q in 0 to %(n)d loop for r in 0 to %(n)d loop
        run(a, b, c, p, q, r, false);
        run(a, b, c, p, q, r, true);
      end loop; end loop; end loop;
    end loop; end loop; end loop;
    wait;
  end process;''' % {'i': i, 'vt': vt, 'ev': ev, 'n': lens})
    return '''package pk is
  type rec is record a : integer; b : bit; end record;
  type wv is array (natural range <>) of rec;
end package;
use work.pk.all;
entity t is end entity;
architecture a of t is
begin%s
end architecture;
''' % ''.join(procs)


# ---------------------------------------------------------------- D: lines

LINES = '''use std.textio.all;
entity t is end entity;
architecture a of t is
begin
  p: process
    file s : text open read_mode is "names";
    file o : text open write_mode is "log";
    file x : text;
    file f, g : text;
    variable nm, l, m : line;
    variable used : natural;
  begin
    while not endfile(s) loop
      readline(s, nm);
      file_open(f, nm.all, read_mode);
      file_open(g, nm.all & ".copy", write_mode);
      m := new string'("");
      while not endfile(f) loop
        readline(f, l);
        write(m, l'length);
        write(m, character'(':'));
        if l'length < 10 then write(m, l.all);
        elsif l'length > 0 then write(m, l(1)); write(m, l(l'length)); end if;
        write(m, character'('|'));
        writeline(g, l);
        assert l'length = 0;
      end loop;
      writeline(o, m);
      file_close(f);
      file_close(g);
    end loop;
    report "done";
    wait;
  end process;
end architecture;
'''
STDIO = '''use std.textio.all;
entity t is end entity;
architecture a of t is
begin
  p: process
    variable l : line;
    variable i : integer;
    file so : text open write_mode is "STD_OUTPUT";
    file te : text open write_mode is "tee.txt";
  begin
    while not endfile(input) loop
      readline(input, l);
      if l'length > 0 and l(1) = 't' then tee(te, l);
      elsif l'length > 0 and l(1) = 's' then writeline(so, l);
      elsif l'length > 0 and l(1) = 'w' then write(output, l.all & "+"); write(output, "" & lf);
      else writeline(output, l); end if;
    end loop;
    wait;
  end process;
end architecture;
'''

LOCALS = '''use std.textio.all;
entity t is end entity;
architecture a of t is
  type cf is file of character;
  type fl is record a : integer; end record;
  signal clk : bit;
begin
  p: process
    procedure check(want : string; what : string) is
      file x : text open read_mode is "loc";
      variable l : line;
    begin
      assert not endfile(x) report what & " empty" severity error;
      if not endfile(x) then
        readline(x, l);
        assert l.all = want report what & " got " & l.all severity error;
        assert endfile(x) report what & " more" severity error;
      end if;
    end procedure;
    procedure p1(k : natural) is
      file f : cf open write_mode is "loc";
    begin
      for i in 1 to 5 loop
        write(f, character'val(64 + i));
        if i = k then return; end if;
      end loop;
    end procedure;
    procedure p2(k : natural) is
      file f, g : cf;
    begin
      file_open(f, "loc", write_mode);
      write(f, 'x');
      if k = 1 then return; end if;
      file_open(g, "loc2", write_mode);
      write(g, 'y');
      if k = 2 then file_close(f); end if;
    end procedure;
    impure function p3(k : natural) return natural is
      file f : cf open append_mode is "loc";
    begin
      write(f, '3');
      if k > 0 then return p3(k - 1) + 1; end if;
      return 0;
    end function;
    procedure p4(k : natural) is
      file f : cf open write_mode is "loc";
    begin
      write(f, 'w');
      if k = 1 then wait for 1 ns; end if;
      write(f, 'v');
      if k = 2 then wait for 1 ns; end if;
    end procedure;
    procedure p5(k : natural) is
      procedure inner is
        file f : cf open write_mode is "loc";
      begin
        write(f, 'n');
      end procedure;
      file f : cf open write_mode is "loc2";
    begin
      inner; inner;
      write(f, 'm');
      if k = 1 then return; end if;
      inner;
    end procedure;
    procedure p6(file f : cf; k : natural) is
    begin
      write(f, 'k');
      if k > 0 then p6(f, k - 1); end if;
    end procedure;
    constant abc : string(1 to 5) := "ABCDE";
    file gl : cf;
    file loc : text;
  begin
    for k in 1 to 6 loop
      p1(k);
      check(abc(1 to minimum(k, 5)), "p1 " & to_string(k));
    end loop;
    for k in 0 to 2 loop
      p2(k);
      check("x", "p2 " & to_string(k));
    end loop;
    for k in 0 to 3 loop
      file_open(loc, "loc", write_mode); file_close(loc);
      assert p3(k) = k;
      -- every append of the inner calls happens before that of the outer ones
      check((0 to k => '3'), "p3 " & to_string(k));
    end loop;
    for k in 0 to 2 loop
      p4(k);
      check("wv", "p4 " & to_string(k));
    end loop;
    for k in 0 to 1 loop
      p5(k);
      check("n", "p5 " & to_string(k));
    end loop;
    for k in 0 to 3 loop
      file_open(gl, "loc", write_mode);
      p6(gl, k);
      file_close(gl);
      check((0 to k => 'k'), "p6 " & to_string(k));
    end loop;
    -- more calls than there can be open files
    for k in 1 to 2500 loop p1(1); p2(2); p4(0); p5(1); end loop;
    check("n", "many");
    report "done";
    wait;
  end process;
end architecture;
'''


def main():
    c = vf.Check('P29', 'model_checking')
    c.build('basic')
    n = states = trans = 0

    def design(name, text, std):
        d = '%s/%s' % (c.work, name)
        os.makedirs(d)
        open(d + '/t.vhd', 'w').write(text)
        r = c.nvc(['-a', 't.vhd', '-e', 't'], d, std=std)
        if r.rc != 0:
            c.die('%s: %s' % (name, r.out[-600:]))
        return d
    da, db = design('a', A, '2008'), design('b', B, '2019')

    # A and B: sequences
    da_depth = 5 if c.thorough else 4
    jobs = []
    both = alphabet_a('f') + alphabet_a('g')
    firsts = [(x,) for x in ['far', 'faw', 'faa', 'fbr', 'fbw', 'fba']]
    for f in firsts:
        jobs.append(('a', da, '2008', f, both, da_depth - 1))
        jobs.append(('a', da, '2008', f, alphabet_a('f'), da_depth + 1))
    for f in ['far', 'faw', 'faa', 'fa+']:
        jobs.append(('b', db, '2019', (f,), ALPHA_B, 4 if c.thorough else 3))
    jobs.append(('b', db, '2019', ('fa+',), ALPHA_B2, 5 if c.thorough else 4))
    jobs.append(('b', db, '2019', ('faw', 'fw!', 'fw"'), ALPHA_B2, 4))
    jobs.append(('b', db, '2019', ('far',), ALPHA_B2, 5))

    def seqs(job):
        k, (kind, lib, std, start, alpha, depth) = job
        leaves, sts, tr = explore(start, alpha, depth)
        bad = []
        CH = 60000
        for part in range(0, len(leaves), CH):
            chunk = leaves[part:part + CH]
            d = '%s/s%d_%d' % (c.work, k, part)
            shutil.copytree(lib, d)
            open(d + '/script', 'w').write(''.join(x[0] + '\n' for x in chunk))
            r = c.nvc(['-r', 't'], d, std=std)
            got = open(d + '/log', encoding='latin-1').read().split('\n')[:-1] if os.path.exists(d + '/log') else []
            for i, (s, out, fa, fb) in enumerate(chunk):
                want = '%s=%s=%s' % (out, fa, fb)
                g = got[i] if i < len(got) else 'no result: ' + r.out[-300:]
                if g != want:
                    bad.append('design %s, operations %s: expected %s, got %s' % (kind, re.sub('(...)', r'\1 ', s), want, g))
                    if i >= len(got):
                        break
            shutil.rmtree(d, ignore_errors=True)
        return len(leaves), len(sts), tr, bad
    for l, s, tr, bad in c.pmap(seqs, list(enumerate(jobs))):
        n += l
        states += s
        trans += tr
        if bad:
            c.violation('sequence', bad[0], {'all.txt': '\n'.join(bad[:50]), 'a.vhd': A, 'b.vhd': B})

    # E: errors
    errs = [('a', da, '2008') + e for e in errors([x for x in both if x[1] not in 'ne'] + ['fAr', 'fAw', 'fNr', 'gNa'], (), 3 if c.thorough else 2)]
    for f in ['far', 'faw', 'faa', 'fa+']:
        errs += [('b', db, '2019') + e for e in errors(ALPHA_B + ['fAr', 'fNr'], (f,), 1)]

    def err(job):
        k, (kind, lib, std, s, msg) = job
        d = '%s/e%d' % (c.work, k)
        shutil.copytree(lib, d)
        open(d + '/script', 'w').write(s + '\n')
        r = c.nvc(['-r', 't'], d, std=std)
        shutil.rmtree(d, ignore_errors=True)
        if r.rc != 1 or 'Fatal' not in r.out or 'done' in r.out:
            return 'design %s, operations %s: expected an error (%s), got status %s: %s' % (kind, re.sub('(...)', r'\1 ', s), msg, r.rc, r.out[-400:])
        if msg not in r.out and 'closed file' not in msg:
            return 'design %s, operations %s: expected an error %s, got %s' % (kind, re.sub('(...)', r'\1 ', s), msg, r.out[-400:])
        return None
    for b in c.pmap(err, list(enumerate(errs))):
        n += 1
        if b:
            c.violation('error', b, {'message.txt': b})

    # C, F: designs with assertions
    def fixed(job):
        name, text, std = job
        d = design(name, text, std)
        r = c.nvc(['-r', 't'], d, std=std, timeout=300)
        if r.rc != 0 or 'rror:' in r.out or (name == 'locals' and 'done' not in r.out):
            return '%s: %s' % (name, r.out[:600]), text
    k = 3 if c.thorough else 2
    for b in c.pmap(fixed, [('types', types_design(), '2008'), ('lengths', unc_design(k), '2008'), ('locals', LOCALS, '2008'), ('locals19', LOCALS, '2019')]):
        if b:
            c.violation('design', b[0], {'t.vhd': b[1]})
    n += len(TYPES) * 12 + len(UNC) * 2 * (k + 1) ** 6 + 40

    # D: lines
    conts = set()
    for ln in range(0, 7 if c.thorough else 6):
        for x in itertools.product(['a', ' ', '\n', '\r\n', '\t'], repeat=ln):
            conts.add(''.join(x))
    for base in (128, 256, 512, 1024, 2048, 4096, 8192, 65536):
        for dlt in (-2, -1, 0, 1, 2):
            for tail in ('', '\n', '\nb', '\r\nb\n'):
                conts.add('c' + 'd' * (base + dlt - 2) + 'e' + tail)
                conts.add('q\n' + 'c' + 'd' * (base + dlt - 4) + 'e' + tail)
    conts = sorted(conts)

    def mlines(x):
        x = x.replace('\r\n', '\n')
        r = x.split('\n')
        return r[:-1] if r[-1] == '' else r
    dl = design('lines', LINES, '2008')
    parts = 8

    def lines(k):
        d = '%s/l%d' % (c.work, k)
        shutil.copytree(dl, d)
        mine = conts[k::parts]
        for i, x in enumerate(mine):
            open('%s/%d.in' % (d, i), 'w', newline='').write(x)
        open(d + '/names', 'w').write(''.join('%d.in\n' % i for i in range(len(mine))))
        r = c.nvc(['-r', 't'], d, std='2008')
        got = open(d + '/log', encoding='latin-1').read().split('\n')[:-1] if os.path.exists(d + '/log') else []
        bad = []
        for i, x in enumerate(mine):
            ls = mlines(x)
            want = ''.join('%d:%s|' % (len(z), z if len(z) < 10 else z[0] + z[-1]) for z in ls)
            g = got[i] if i < len(got) else 'no result: ' + r.out[-300:]
            if g != want:
                bad.append('content %r: expected lines %r, got %r' % (x[:40], want, g[:300]))
                if i >= len(got):
                    break
                continue
            cp = open('%s/%d.in.copy' % (d, i), newline='').read()
            if cp != ''.join(z + '\n' for z in ls):
                bad.append('content %r: copied as %r' % (x[:40], cp[:40]))
        shutil.rmtree(d, ignore_errors=True)
        return bad
    for bad in c.pmap(lines, list(range(parts))):
        if bad:
            c.violation('lines', bad[0], {'all.txt': '\n'.join(bad[:50]), 't.vhd': LINES})
    n += len(conts)

    ds = design('stdio', STDIO, '2008')
    ins = [''.join(x) for ln in range(0, 4) for x in itertools.product(['t1\n', 's2\n', 'w3\n', 'o4\n', '\n', 'o5'], repeat=ln)]
    ins = sorted({re.sub(r'o5(?=.)', 'o5\n', x, flags=re.S) for x in ins})

    def stdio(job):
        k, x = job
        d = '%s/i%d' % (c.work, k)
        shutil.copytree(ds, d)
        p = subprocess.run([c.exe, '-L', c.libs, '--std=2008', '-r', 't'], cwd=d, input=x.encode(), stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
        so = re.sub(r'\*\* Debug: .*\n', '', p.stdout.decode('latin-1'))
        te = open(d + '/tee.txt').read() if os.path.exists(d + '/tee.txt') else None
        shutil.rmtree(d, ignore_errors=True)
        want = ''.join((z + '+' if z.startswith('w') else z) + '\n' for z in mlines(x))
        wt = ''.join(z + '\n' for z in mlines(x) if z.startswith('t'))
        if p.returncode or so != want or te != wt:
            return 'standard input %r: status %s, expected output %r and tee %r, got %r and %r %s' % (x, p.returncode, want, wt, so, te, p.stderr.decode()[-200:])
    for b in c.pmap(stdio, list(enumerate(ins))):
        n += 1
        if b:
            c.violation('stdio', b, {'t.vhd': STDIO})
    c.finish({'states': states, 'transitions': trans, 'traces_validated_against_impl': n, 'sequences': n, 'error_runs': len(errs), 'exhaustive': True,
              'depth': da_depth, 'samples': [e[3] for e in errs[::40]][:6]},
             ['data of unconstrained array files is compared as a stream of elements (no length is stored)'])


if __name__ == '__main__':
    vf.main(main)
