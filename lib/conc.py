"""Model checking of the concurrent C code with the explorer in /verif/conc."""
import os, re, subprocess
import vf


def run_property(pid, scenarios, level, assumptions, known_text=None):
    c = vf.Check(pid, level)
    c.build()
    out = c.dir('mc')
    p = subprocess.run([os.path.join(vf.VERIF, 'conc', 'build.sh'), c.src, c.bld, out],
                       stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode != 0:
        c.die('the code under test does not compile for the explorer:\n' + p.stdout.decode()[-2000:])
    execs = steps = n = 0
    complete = True
    rows = []
    for sc in scenarios:
        name, arg, quick, thorough, what = sc
        pre, weak = thorough if c.thorough else quick
        limit = 600 if c.thorough else 90
        r = vf.run([out + '/mc', './subj.so', name, str(arg), str(pre), str(weak), str(vf.JOBS), '0', str(limit)],
                   cwd=out, timeout=limit + 120, env={'MC_REEXEC': ''} if False else None)
        m = re.search(r'EXECS (\d+) STEPS (\d+) COMPLETE (\d)', r.out)
        if r.timed_out or not m or r.rc not in (0, 1) or 'ERROR:' in r.out:
            c.die('explorer failed on %s %s: rc=%s %s' % (name, arg, r.rc, r.out[-500:]))
        e, s, ok = int(m.group(1)), int(m.group(2)), int(m.group(3))
        execs += e
        steps += s
        n += 1
        rows.append({'scenario': name, 'arg': arg, 'what': what, 'preemptions': pre, 'delayed_stores': weak,
                     'schedules': e, 'steps': s, 'complete': bool(ok)})
        if r.rc == 1:
            f = re.search(r'FAIL (.*)', r.out).group(1)
            sched = re.search(r'SCHEDULE (.*)', r.out).group(1)
            rep = vf.run([out + '/mc', './subj.so', name, str(arg), str(pre), str(weak), '1', '1', '0', sched],
                         cwd=out, timeout=60)
            key = '%s-%d:%s' % (name, arg, re.sub(r'[^A-Za-z]+', '-', f)[:60])
            c.violation(key, '%s (%s %d, at most %d preemptions and %d delayed stores): %s' % (what, name, arg, pre, weak, f),
                        {'schedule.txt': sched + '\n', 'trace.txt': rep.out,
                         'replay.sh': '#!/bin/sh\n# replays the failing schedule\nO=$(mktemp -d); /verif/conc/build.sh %s %s $O && cd $O && ./mc ./subj.so %s %d %d %d 1 1 0 "%s"\n'
                         % (c.src, c.bld, name, arg, pre, weak, sched)})
        else:
            complete &= bool(ok)
    c.finish({'states': execs, 'transitions': steps, 'traces_validated_against_impl': execs, 'scenarios': n,
              'exhaustive': complete, 'runs': rows,
              'samples': ['%(what)s: %(schedules)d schedules with at most %(preemptions)d preemptions and %(delayed_stores)d delayed stores' % r for r in rows[:12]]},
             assumptions)
