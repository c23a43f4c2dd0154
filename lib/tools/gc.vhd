package pk is
  type node; type ptr is access node;
  type strp is access string;
  type vec is array (natural range <>) of ptr;
  type vecp is access vec;
  type node is record
    id : integer; l : ptr; s : strp; v : vecp; r : ptr;
  end record;
  type stack is protected
    procedure push(id : in integer; s : in string);
    impure function size return natural;
    impure function top return string;
    procedure pop(id : out integer);
  end protected;
end package;
package body pk is
  type stack is protected body
    type cell; type cellp is access cell;
    type cell is record nx : cellp; id : integer; s : strp; end record;
    variable head : cellp; variable n : natural := 0;
    procedure push(id : in integer; s : in string) is
    begin head := new cell'(head, id, new string'(s)); n := n + 1; end procedure;
    impure function size return natural is begin return n; end function;
    impure function top return string is begin return head.s.all; end function;
    procedure pop(id : out integer) is
    begin id := head.id; head := head.nx; n := n - 1; end procedure;
  end protected body;
end package body;
use work.pk.all;
entity t is generic (depth : natural := 3; first : integer := 0; step : integer := 1); end entity;
architecture a of t is
  shared variable stk : stack;
begin
  p: process
    constant NO : integer := 64;
    type ia is array (0 to NO) of integer;
    type vv is array (0 to 1) of ia;
    variable r : vec(0 to 1);
    -- model
    variable mr : ia; variable ml, mrr, mlen, mx : ia; variable mv : vv;
    variable ms : ia; variable nms : integer; variable n : integer;
    variable count, scripts : integer := 0;
    variable ops : ia;
    constant NOPS : integer := 22;
    variable same : integer;
    procedure bad(s : string) is
    begin
      for i in integer'(0) to depth - 1 loop report "op " & integer'image(ops(i)) severity note; end loop;
      report "BAD " & s severity failure;
    end procedure;
    function str(id, len : integer) return string is
      variable s : string(1 to len);
    begin
      for i in s'range loop s(i) := character'val(65 + (id + i) mod 26); end loop;
      return s;
    end function;
    function mkstr(id : integer) return strp is
    begin
      return new string'(str(id, 3) & str(id + 3, 4));
    end function;
    impure function mkvec return vecp is
      variable v : vecp := new vec(3 to 4);
    begin
      return v;
    end function;
    procedure mk(variable q : out ptr; id : integer; variable l, rr : in ptr) is
      variable p : ptr := new node'(id, l, mkstr(id), mkvec, null);
    begin
      p.r := rr;
      q := p;
    end procedure;
    procedure newobj(i : integer) is
    begin
      n := n + 1;
      ml(n) := 0; mrr(n) := 0; mlen(n) := 7; mv(0)(n) := 0; mv(1)(n) := 0; mx(n) := n;
      mr(i) := n;
    end procedure;
    procedure garbage is
      variable s : strp; variable q : ptr;
    begin
      for i in 1 to 4 loop
        s := new string'(str(i, 20) & str(i, 30));
        q := new node'(7, q, s, null, q);
      end loop;
    end procedure;
    procedure check(variable p : in ptr; m : integer; d : integer) is
    begin
      if m = 0 then
        if p /= null then bad("not null"); end if;
      else
        if p = null then bad("null"); end if;
        if p.id /= mx(m) then bad("id " & integer'image(p.id) & " expected " & integer'image(mx(m))); end if;
        if p.s = null then bad("no string"); end if;
        if p.s'length /= mlen(m) or p.s'left /= 1 then bad("length of string"); end if;
        for i in 1 to mlen(m) loop
          if i <= 7 then
            if p.s(i) /= character'val(65 + (mx(m) + i) mod 26) then bad("string"); end if;
          elsif p.s(i) /= 'x' then bad("string end"); end if;
        end loop;
        if p.v'left /= 3 or p.v'right /= 4 then bad("vector bounds"); end if;
        if d > 0 then
          check(p.l, ml(m), d - 1); check(p.r, mrr(m), d - 1);
          check(p.v(3), mv(0)(m), d - 1); check(p.v(4), mv(1)(m), d - 1);
        end if;
      end if;
    end procedure;
    -- a copy of the list of left links, made recursively
    procedure clone(variable p : in ptr; m : integer; d : integer; variable res : out ptr) is
      variable q, l : ptr; variable k : integer;
    begin
      if p = null or d = 0 then res := p;
      else
        clone(p.l, ml(m), d - 1, l);
        q := new node'(p.id, l, new string'(p.s.all), new vec'(p.v.all), p.r);
        res := q;
      end if;
    end procedure;
    impure function mclone(m : integer; d : integer) return integer is
      variable k, kl : integer;
    begin
      if m = 0 or d = 0 then return m; end if;
      kl := mclone(ml(m), d - 1);
      n := n + 1; k := n;
      ml(k) := kl; mrr(k) := mrr(m); mlen(k) := mlen(m); mx(k) := mx(m);
      mv(0)(k) := mv(0)(m); mv(1)(k) := mv(1)(m);
      return k;
    end function;
    procedure swap(a, b : inout ptr) is
      variable c : ptr := a;
    begin a := b; garbage; b := c; end procedure;
    function len(s : string) return natural is begin return s'length; end function;
    procedure popcheck is
      variable id : integer;
      variable s : string(1 to 64);
      variable l : natural;
    begin
      l := len(stk.top);
      s(1 to l) := stk.top;
      garbage;
      for i in 1 to 7 loop
        if s(i) /= character'val(65 + (mx(ms(nms)) + i) mod 26) and s(i) /= 'x' then bad("top string"); end if;
      end loop;
      if stk.top /= s(1 to l) or l < 14 then bad("top"); end if;
      stk.pop(id);
      if id /= ms(nms) then bad("pop"); end if;
      nms := nms - 1;
    end procedure;
    impure function unused(j : integer) return boolean is
    begin
      for i in 1 to n loop
        if i /= j and (ml(i) = j or mrr(i) = j or mv(0)(i) = j or mv(1)(i) = j) then return false; end if;
      end loop;
      return mr(0) /= j and mr(1) /= j;
    end function;
    procedure doop(op : integer; ok : out boolean) is
      variable i, j, k : integer; variable q : ptr; variable nv : vecp;
    begin
      ok := true;
      case op is
        when 0 | 1 => q := null; mk(r(op), n + 1, q, q); newobj(op);
        when 2 | 3 => i := op - 2; k := mr(i); mk(q, n + 1, r(i), r(1 - i)); r(i) := q; q := null; j := mr(1 - i); newobj(i); ml(n) := k; mrr(n) := j;
        when 4 | 5 => i := op - 4; if mr(i) = 0 then ok := false; else r(i).l := r(1 - i); ml(mr(i)) := mr(1 - i); end if;
        when 6 | 7 => i := op - 6; if mr(i) = 0 then ok := false; else r(i).v(4 - i) := r(i); mv(1 - i)(mr(i)) := mr(i); end if;
        when 8 | 9 => i := op - 8; if mr(i) = 0 then ok := false; else r(i) := r(i).l; mr(i) := ml(mr(i)); end if;
        when 10 | 11 => i := op - 10; if mr(i) = 0 then ok := false; else r(i) := r(i).v(4); mr(i) := mv(1)(mr(i)); end if;
        when 12 => r(0) := null; mr(0) := 0;
        when 13 | 14 => i := op - 13; if mr(i) = 0 then ok := false; else
            r(i).s := new string'(r(i).s.all & str(1, 0) & 'x'); mlen(mr(i)) := mlen(mr(i)) + 1; end if;
        when 15 => clone(r(0), mr(0), 3, q); r(1) := q; mr(1) := mclone(mr(0), 3);
        when 16 => if mr(0) = mr(1) then ok := false; else swap(r(0), r(1)); k := mr(0); mr(0) := mr(1); mr(1) := k; end if;
        when 17 => if mr(0) = 0 then ok := false; else stk.push(mr(0), r(0).s.all & r(0).s.all); nms := nms + 1; ms(nms) := mr(0); end if;
        when 18 => if nms = 0 then ok := false; else popcheck; end if;
        when 19 => if mr(0) = 0 then ok := false; else
            -- the string is only reachable through a local view of it
            k := mlen(mr(0));
            r(0).s := new string'(r(0).s(1 to 3) & r(0).s(4 to k)); end if;
        when 20 => if mr(0) = 0 then ok := false; else
            nv := new vec'(r(0).v.all); r(0).v := nv; nv := null; garbage; end if;
        when others =>
            if mr(1) = 0 then ok := false; else
            q := r(1); r(1) := new node'(q.id, q.l, new string'(q.s.all), new vec'(q.v.all), q.r); n := n + 1; k := n; j := mr(1);
            ml(k) := ml(j); mrr(k) := mrr(j); mlen(k) := mlen(j); mx(k) := mx(j);
            mv(0)(k) := mv(0)(j); mv(1)(k) := mv(1)(j); mr(1) := k;
            if unused(j) then deallocate(q); end if; end if;
      end case;
    end procedure;
    variable ok : boolean; variable d : integer; variable x : integer; variable q : ptr;
    variable total : integer := 1;
  begin
    for i in 1 to depth loop total := total * (NOPS); end loop;
    x := first;
    while x < total loop
      d := x; 
      for i in depth - 1 downto 0 loop ops(i) := d mod (NOPS); d := d / (NOPS); end loop;
      r := (null, null); mr(0) := 0; mr(1) := 0; n := 0; nms := 0;
      while stk.size > 0 loop stk.pop(d); end loop;
      for i in integer'(0) to depth - 1 loop
        doop(ops(i), ok);
        exit when not ok;
        count := count + 1;
        check(r(0), mr(0), 3); check(r(1), mr(1), 3);
      end loop;
      if ok then
        garbage;
        check(r(0), mr(0), 4); check(r(1), mr(1), 4);
        while nms > 0 loop popcheck; end loop;
        scripts := scripts + 1;
      end if;
      x := x + step;
    end loop;
    report "OK " & integer'image(scripts) & " " & integer'image(count);
    wait;
  end process;
end architecture;
