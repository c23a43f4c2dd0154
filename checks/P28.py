"""P28: exit status, stopping rules, severity counts.

Model: a script of actions (reports and assertions of each severity, waits,
delta waits, stop and finish with and without status, run-time errors, severity
counter operations) executed by one process, an optional free running clock, and the
options --exit-severity, --stop-time, --stop-delta and --stderr.  The model
gives the messages with their times, on which stream they appear, and the exit status.

Enumeration: every script up to a length over the alphabet with every value
of each option; every one is run by the simulator (one elaborated design that
reads its script from a file).
"""
import os, re, sys, itertools, subprocess, shutil
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

SEV = {'n': 'note', 'w': 'warning', 'e': 'error', 'f': 'failure'}
ORD = ['note', 'warning', 'error', 'failure']
STOPS = {'1': ('STOP', None), '2': ('STOP', 0), '3': ('STOP', 3), '4': ('FINISH', None), '5': ('FINISH', 0), '6': ('FINISH', 7)}


def design(std):
    x = std == '2019'
    return '''use std.textio.all;
use std.env.all;
entity t is generic (clk : boolean); end entity;
architecture a of t is
  signal c : bit;
  type ivec is array (natural range <>) of integer;
  procedure sub (s : severity_level) is
  begin
    assert false report "P" severity s;
  end procedure;
begin
  g: if clk generate
    c <= not c after 1 ns;
  end generate;
  p: process
    file f : text open read_mode is "script";
    variable l, m : line;
    variable v : ivec(0 to 3);
    variable i : integer := 3;
  begin
    if not endfile(f) then
    readline(f, l);
    for k in l'range loop
      case l(k) is
        when 'n' => report "R" severity note;
        when 'w' => report "R" severity warning;
        when 'e' => report "R" severity error;
        when 'f' => report "R" severity failure;
        when 'N' => assert false report "A" severity note;
        when 'W' => assert false report "A" severity warning;
        when 'E' => assert false report "A";
        when 'F' => assert false report "A" severity failure;
        when 't' => assert true report "T" severity failure;
        when 'p' => sub(error);
        when 'P' => sub(warning);
        when '1' => stop;
        when '2' => stop(0);
        when '3' => stop(3);
        when '4' => finish;
        when '5' => finish(0);
        when '6' => finish(7);
        when 'd' => wait for 0 ns;
        when '.' => wait for 1 ns;
        when 'l' => loop wait for 0 ns; end loop;
        when 'x' => v(i + k) := i;
%s
        when others => null;
      end case;
    end loop;
    end if;
    wait;
  end process;
end architecture;
''' % ('''        when 'c' => ClearVhdlAssert;
        when 'q' => write(m, integer'image(GetVhdlAssertCount(note)) & " " & integer'image(GetVhdlAssertCount(warning)) & " " & integer'image(GetVhdlAssertCount(error)) & " " &
                    integer'image(GetVhdlAssertCount) & " " & boolean'image(IsVhdlAssertFailed) & " " & boolean'image(IsVhdlAssertFailed(warning)));
                    writeline(output, m);
        when 'm' => SetVhdlAssertEnable(error, false);
        when 'M' => SetVhdlAssertEnable(error, true);
        when 'y' => SetVhdlAssertEnable(false);
        when 'Y' => SetVhdlAssertEnable(true);
        when 'u' => report boolean'image(GetVhdlAssertEnable(error)) severity note;''' if x else '')


def model(script, clk, opt):
    """Messages [(stream, label, time, delta, text)], stdout lines, status."""
    exit_sev = opt.get('exit-severity', 'failure')
    status_sev = opt.get('exit-severity', 'error')
    stop_t = opt.get('stop-time')
    maxd = opt.get('stop-delta', 10000)
    err_from = opt.get('stderr', 'note')
    counts = dict.fromkeys(ORD, 0)
    on = dict.fromkeys(ORD, True)
    out, lines = [], []
    t = d = 0

    def emit(label, text):
        rank = {'note': 0, 'warning': 1, 'error': 2, 'failure': 3, 'fatal': 4}[label]
        out.append((1 if rank >= ORD.index(err_from) else 0, label, t, d, text))

    def done(status):
        if status is None:
            status = 1 if any(counts[s] for s in ORD[ORD.index(status_sev):]) else 0
        return out, lines, status
    for a in script:
        if a in 'nwefNWEFpP':
            sev = SEV[a.lower()] if a not in 'pP' else {'p': 'error', 'P': 'warning'}[a]
            if not on[sev]:
                continue
            emit(sev, 'P' if a in 'pP' else 'R' if a.islower() else 'A')
            counts[sev] += 1
            if ORD.index(sev) >= ORD.index(exit_sev):
                return done(1)
        elif a in STOPS:
            w, st = STOPS[a]
            emit('note', '%s called%s' % (w, '' if st is None else ' with status %d' % st))
            return done(st)
        elif a in 'dl':
            if a == 'l':
                if maxd == 0:
                    return None
                d = maxd + 1
            else:
                d += 1
            if maxd and d > maxd:
                d = maxd
                emit('fatal', 'limit of %d delta cycles reached' % maxd)
                return done(1)
        elif a == '.':
            t, d = t + 1, 0
            if stop_t is not None and t > stop_t:
                return done(None)
        elif a == 'x':
            emit('fatal', 'index')
            return done(1)
        elif a == 'c':
            counts = dict.fromkeys(ORD, 0)
        elif a == 'q':
            # the count without a level covers all levels of an assertion violation: warning and above
            lines.append([counts[s] for s in ORD])
        elif a in 'mM':
            on['error'] = a == 'M'
        elif a in 'yY':
            on = dict.fromkeys(ORD, a == 'Y')
        elif a == 'u':
            if on['note']:
                emit('note', 'true' if on['error'] else 'false')
                counts['note'] += 1
                if exit_sev == 'note':
                    return done(1)
    if clk and stop_t is None:
        return None
    return done(None)


MSG = re.compile(r'^\*\* (Note|Warning|Error|Failure|Fatal): (?:(\d+)(fs|ps|ns|us|ms|s)\+(\d+): )?(.*)', re.M)


def parse(text, stream):
    r = []
    for lab, n, u, d, x in MSG.findall(text):
        x = x.strip()
        if n:
            t = int(n) * {'ns': 1, 'ms': 10 ** 6, 'us': 1000}.get(u, 0)
        else:
            t, d = 0, 0
        r.append((stream, lab.lower(), t, int(d or 0), 'index' if x.startswith('index') else x))
    return r


RES = '''entity t is end entity;
architecture a of t is
  type e is (%s);
  type ev is array (natural range <>) of e;
  function r (x : ev) return e is
    variable m : e := e'left;
  begin
    for i in x'range loop
      assert x(i) /= e'right report "bad value" severity %s;
      if x(i) > m then m := x(i); end if;
    end loop;
    return m;
  end function;
  signal s : r e;
begin
  p: process begin s <= e'val(%d); wait for 1 ns; s <= e'left; wait for 1 ns; wait; end process;
%s
end architecture;
'''


DECL = '''package p is
  impure function f (s : severity_level) return integer;
end package;
package body p is
  impure function f (s : severity_level) return integer is
  begin
    report "D" severity s;
    return 1;
  end function;
end package body;
use work.p.all;
entity t is end entity;
architecture a of t is
  %s
begin
  p: process
    %s
  begin
    wait for 1 ns;
    report "R";
    wait;
  end process;
  %s
end architecture;
'''


def statics():
    """Single designs: name, text, options, messages expected of the run, exit status."""
    out = []
    for n in (2, 3, 5, 16, 17):
        for sev in ORD:
            for two in (False, True):
                for used in (False, True):
                    lits = ', '.join('v%d' % i for i in range(n))
                    d = RES % (lits, sev, n - 1 if used else n - 2, "  q: process begin s <= e'left; wait; end process;" if two else '')
                    if not used:
                        out.append(('res', d, {}, [], 0))
                    elif sev != 'failure':
                        out.append(('res', d, {}, None, 1 if sev == 'error' else 0))
                    else:
                        out.append(('res', d, {}, None, 1))
    for sev in ORD:
        for place in range(3):
            for ex in (None, 'warning', 'error'):
                sl = ['', '', '']
                sl[place] = ('constant c : integer := f(%s);' if place == 0 else 'variable v : integer := f(%s);' if place == 1 else 'assert f(%s) = 0 report "C" severity note;') % sev
                r = ORD.index(sev)
                fatal = r >= ORD.index(ex or 'failure')
                out.append(('decl', DECL % tuple(sl), {'exit-severity': ex} if ex else {}, None, 1 if r >= ORD.index(ex or 'error') or fatal else 0))
    return out


def main():
    c = vf.Check('P28', 'exhaustive_exec')
    c.build()
    top = c.dir('d')
    for std in ('2008', '2019'):
        w = top + '/' + std
        os.makedirs(w)
        open(w + '/t.vhd', 'w').write(design(std))
        for clk in ('true', 'false'):
            r = c.nvc(['-a', 't.vhd', '-e', '--jit', '-gclk=' + clk, 't'], w, std=std, work='work:%s/w%s' % (w, clk))
            if r.rc:
                c.die(r.out)
    core = 'nwefEp123456d.xl'
    scripts = []
    for n in range(0, 3):
        scripts += [''.join(p) for p in itertools.product('nwefNWEFtpP123456d.xl', repeat=n)]
    for p in itertools.product('wefE', '.d', 'nwe26.x1d'):
        scripts.append(''.join(p))
    for p in itertools.product('d.', 'd.', 'wef136dl.'):
        scripts.append(''.join(p))
    for p in itertools.product('ewn', 'ew', '1256fx'):
        scripts.append(''.join(p))
    if c.thorough:
        scripts += [''.join(p) for p in itertools.product(core, repeat=3)]
        scripts += [''.join(p) for p in itertools.product('we.d3', repeat=4)]
    scripts = sorted(set(scripts), key=lambda s: (len(s), s))
    runs = []
    for s in scripts:
        short = len(s) <= 2
        for sev in (None, 'note', 'warning', 'error', 'failure'):
            if sev and not any(x in s for x in 'nwefNWEFpP'):
                continue
            o = {'exit-severity': sev} if sev else {}
            if short or not sev or c.thorough or sev in ('warning', 'error'):
                runs.append(('2008', s, False, o))
        if '.' in s or 'd' in s or 'l' in s or len(s) < 2:
            for st in (0, 1, 2):
                runs.append(('2008', s, True, {'stop-time': st}))
                if '.' in s:
                    runs.append(('2008', s, False, {'stop-time': st}))
            for sd in (1, 2, 3) + ((0,) if 'l' not in s else ()):
                if 'd' in s or 'l' in s:
                    runs.append(('2008', s, False, {'stop-delta': sd}))
                    if c.thorough:
                        runs.append(('2008', s, True, {'stop-delta': sd, 'stop-time': 1}))
        if short and any(x in s for x in 'nwefxl1'):
            for e in ORD:
                runs.append(('2008', s, False, {'stderr': e}))
                if len(s) == 1 or c.thorough:
                    for sev in ORD:
                        runs.append(('2008', s, False, {'stderr': e, 'exit-severity': sev}))
    # severity counters of 2019
    for n in (1, 2, 3) + ((4,) if c.thorough else ()):
        for p in itertools.product('nwecmMyYuq', repeat=n):
            s = ''.join(p)
            if n > 2 and not c.thorough and (s[0] in 'qu' or s[-1] not in 'quew'):
                continue
            runs.append(('2019', s + 'q', False, {}))
            if n == 2:
                for sev in ('warning', 'error', 'failure'):
                    runs.append(('2019', s + 'q', False, {'exit-severity': sev}))
    c.log('%d scripts, %d runs' % (len(scripts), len(runs)))
    env = dict(os.environ, LANG='C.UTF-8', NVC_COLORS='never', COLUMNS='400')

    def one(job):
        i, (std, s, clk, o) = job
        want = model(s, clk, o)
        if want is None:
            return 0, None
        d = '%s/r%d' % (top, i)
        os.makedirs(d)
        open(d + '/script', 'w').write(s + '\n' if s else '')
        cmd = [c.exe, '-L', c.libs, '--std=' + std, '--work=work:%s/%s/w%s' % (top, std, 'true' if clk else 'false')]
        if 'stderr' in o:
            cmd.append('--stderr=' + o['stderr'])
        cmd += ['-r']
        if 'exit-severity' in o:
            cmd.append('--exit-severity=' + o['exit-severity'])
        if 'stop-time' in o:
            cmd.append('--stop-time=%dns' % o['stop-time'])
        if 'stop-delta' in o:
            cmd.append('--stop-delta=%d' % o['stop-delta'])
        cmd.append('t')
        try:
            p = subprocess.run(cmd, cwd=d, env=env, stdin=subprocess.DEVNULL, stdout=subprocess.PIPE, stderr=subprocess.PIPE, timeout=60)
            rc, so, se = p.returncode, p.stdout.decode('latin-1'), p.stderr.decode('latin-1')
        except subprocess.TimeoutExpired:
            rc, so, se = 'timeout', '', ''
        shutil.rmtree(d, ignore_errors=True)
        out, lines, status = want
        bad = []
        for stream, text in ((1, se), (0, so)):
            got = parse(text, stream)
            exp = [m for m in out if m[0] == stream]
            if got != exp:
                bad.append('%s: expected %s, got %s' % ('stderr' if stream else 'stdout', [m[1:] for m in exp], [m[1:] for m in got]))
        if rc != status:
            bad.append('exit status: expected %s, got %s' % (status, rc))
        got = [l.split() for l in so.split('\n') if re.match(r'^\d+ \d+ \d+ \d+ (true|false)', l)]
        if std == '2019':
            exp = []
            for n, w, e, f in lines:
                exp.append([str(n), str(w), str(e), str(w + e + f), 'true' if w + e + f else 'false', 'true' if w else 'false'])
            if got != exp:
                bad.append('counts: expected %s, got %s' % (exp, got))
        if bad:
            return 1, ('script %r%s, options %s: %s' % (s, ' with clock' if clk else '', o, '; '.join(bad)), so + se)
        return 1, None
    n = 0
    for k, b in c.pmap(one, list(enumerate(runs))):
        n += k
        if b:
            c.violation('run', b[0], {'output.txt': b[1], 'design.vhd': design('2019')})
    st = statics()

    def static(job):
        i, (name, d, o, msgs, status) = job
        w = '%s/st%d' % (top, i)
        os.makedirs(w)
        open(w + '/t.vhd', 'w').write(d)
        r = c.nvc(['-a', 't.vhd', '-e', '--jit', '--no-save', 't', '-r'] + ['--%s=%s' % x for x in o.items()], w)
        bad = []
        if r.rc != status:
            bad.append('exit status: expected %d, got %s' % (status, r.rc))
        if msgs is not None and parse(r.out, 1) != msgs:
            bad.append('messages: expected %s, got %s' % (msgs, parse(r.out, 1)))
        return ('%s options %s: %s' % (name, o, '; '.join(bad)), d, r.out) if bad else None
    for b in c.pmap(static, list(enumerate(st))):
        n += 1
        if b:
            c.violation('static', b[0], {'t.vhd': b[1], 'output.txt': b[2]})
    c.finish({'states': n, 'transitions': n, 'traces_validated_against_impl': n, 'runs': n, 'scripts': len(scripts), 'exhaustive': True,
              'samples': [repr(r) for r in runs[:: max(1, len(runs) // 6)]]})


if __name__ == '__main__':
    vf.main(main)
