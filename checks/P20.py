#!/usr/bin/env python3
"""P20: memory is reclaimed only when it is unreachable, and is then reusable.

 A  every sequence of operations (allocate, link, load, unlink, move, collect,
    local buffers) on the real heap through its public interface, with heaps of
    a few lines and of sizes around the word boundaries of the line masks; after
    every operation all reachable objects are compared with a reference graph,
    after every sequence the heap is collected and filled completely.
 B  every range operation of the line masks on all small patterns.
 C  every script of operations on access values in a design, with a heap so
    small that collections happen all the time, with a collection before every
    allocation, interpreted, compiled at run time and compiled ahead.
"""
import os, re, sys, subprocess
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf

TOOLS = os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib', 'tools')


def compile_tool(c, name):
    mk = open(os.path.join(c.bld, 'Makefile')).read()
    v = {}
    for m in re.finditer(r'(?m)^(\w+) = (.*)$', mk):
        v[m.group(1)] = m.group(2)
    libs = []
    for k in ('LLVM_LDFLAGS', 'LLVM_LIBS', 'capstone_LIBS', 'libdw_LIBS', 'libffi_LIBS',
              'libzstd_LIBS', 'zlib_LIBS', 'LIBS'):
        libs += v.get(k, '').split()
    out = os.path.join(c.work, name)
    a = ['gcc', '-g', '-O0', '-w', '-DHAVE_CONFIG_H', '-I' + c.bld, '-I' + c.src + '/src',
         '-I' + c.src + '/thirdparty', '-o', out, os.path.join(TOOLS, name + '.c')]
    for l in ('nvc', 'fst', 'fastlz', 'cpustate', 'gnulib', 'sha1'):
        p = '%s/lib/lib%s.a' % (c.bld, l)
        if os.path.exists(p):
            a.append(p)
    p = subprocess.run(a + libs + ['-lz', '-lm', '-lpthread', '-ldl'], stdout=subprocess.PIPE, stderr=subprocess.STDOUT)
    if p.returncode:
        c.die('harness %s does not compile: %s' % (name, p.stdout.decode()[-800:]))
    return out


# lines, depth quick, depth thorough, mode, sizes
# mode: 1 interior positions, 2 freeing of roots, 4 local buffers
HEAPS = [
    (6, 4, 5, 3, ['8', '32', '64'], 8),
    (8, 5, 6, 0, ['16', '64'], 8),
    (5, 4, 5, 2, ['1', '24', '31', '63'], 2),
    (64, 3, 4, 3, ['16', '31l', '32l', '62l'], 1),
    (66, 3, 4, 1, ['16', '31l-1', '33l-1', '64l-1'], 1),
    (128, 3, 4, 1, ['16', '63l-1', '64l-1', '65l-1'], 1),
    (130, 3, 4, 3, ['16', '62l', '63l', '64l'], 1),
    (193, 3, 4, 1, ['16', '63l', '126l', '128l-1'], 1),
    (6, 3, 4, 7, ['8', '64'], 4),
    (67, 3, 4, 4, ['16', '60l'], 2),
]


def body():
    c = vf.Check('P20', 'model_checking')
    c.build()
    heap = compile_tool(c, 'heap')
    masks = compile_tool(c, 'masks')
    jobs = []
    for i, (n, dq, dt, mode, sizes, w) in enumerate(HEAPS):
        d = dt if c.thorough else dq
        w = 16 if c.thorough else w
        for k in range(w):
            jobs.append(('heap of %d lines' % n, [heap, str(n), str(d), str(mode), str(k), str(w)] + sizes))
    step = '1' if c.thorough else '5'
    for ms in (['1', '2', '31', '63', '64', '33'], ['65', '66', '127'], ['128', '129'], ['130', '191', '192'], ['193']):
        jobs.append(('masks', [masks, step] + ms))
    jobs.sort(key=lambda j: -len(j[1]))
    tot = {'sequences': 0, 'operations': 0, 'collections': 0, 'rightly_refused': 0, 'mask_checks': 0}

    def one(j):
        what, a = j
        return j, vf.run(a, cwd=c.work, timeout=820, mem_mb=4000)
    def gcrun(j):
        name, pre, env, gen = j
        d = c.dir('gc' + name)
        r = c.nvc(['-a', os.path.join(TOOLS, 'gc.vhd')], d)
        if r.rc:
            c.die('gc.vhd does not analyse: ' + r.out[-500:])
        # the collector is conservative: a stale word on the stack that looks
        # like a pointer (this depends on where the kernel puts the stack) may
        # retain objects, so being out of memory counts only if it happens
        # in every one of several processes, some with a larger heap
        for grow in (1, 1, 1, 2, 2, 4):
            h = pre[1]
            p = ['-H', '%d%s' % (int(h[:-1]) * grow, h[-1])]
            if 'aot' in name:
                r = c.nvc(['-e', 't'] + gen, d, pre=p, env=env, timeout=300)
                if r.rc == 0:
                    r = c.nvc(['-r', 't'], d, pre=p, env=env, timeout=820)
            else:
                r = c.nvc(['-e', '--jit', '--no-save', 't'] + gen + ['-r'], d, pre=p, env=env, timeout=820)
            if r.rc == 0 or 'out of memory' not in r.out:
                break
        return j, r
    D = 5 if c.thorough else 4
    gjobs = []
    W = 8 if c.thorough else 2
    for k in range(W):
        g = ['-gdepth=%d' % D, '-gfirst=%d' % k, '-gstep=%d' % W]
        for h in (['8k', '16k', '64k'] if c.thorough else ['8k', '16k']):
            gjobs.append(('int%s-%d' % (h, k), ['-H', h], {'NVC_JIT_THRESHOLD': '0'}, g))
            gjobs.append(('jit%s-%d' % (h, k), ['-H', h], {'NVC_JIT_THRESHOLD': '1'}, g))
        gjobs.append(('aot-%d' % k, ['-H', '10k'], {}, g))
    W = 32 if c.thorough else 4
    for k in range(W):
        g = ['-gdepth=%d' % (D - 1), '-gfirst=%d' % k, '-gstep=%d' % W]
        gjobs.append(('stress-%d' % k, ['-H', '64k'], {'NVC_GC_STRESS': '1', 'NVC_JIT_THRESHOLD': str(k % 2)}, g))
    scripts = 0
    for j, r in c.pmap(gcrun, gjobs):
        out = r.out
        m = re.search(r'OK (\d+) (\d+)', out)
        if m and r.rc == 0:
            scripts += int(m.group(1))
            tot['operations'] += int(m.group(2))
            tot['collections'] += len(re.findall(r'GC: allocated', out))
            continue
        keep = [l for l in out.split('\n') if re.search(r'Note:|Fatal|Error|BAD|signal|Failure', l) and 'GC:' not in l]
        key = 'design:' + re.sub(r'-\d+$', '', j[0])
        if r.timed_out:
            key += ':hang'
        c.violation(key, 'scripts of access operations, run %s with %s %s: %s' % (j[0], j[1], j[2], ' | '.join(keep)[-700:]),
                    {'gc.vhd': open(os.path.join(TOOLS, 'gc.vhd')).read(),
                     'run.sh': 'nvc --std=2008 -a gc.vhd; %s nvc --std=2008 %s -e --jit --no-save t %s -r\n' % (
                         ' '.join('%s=%s' % kv for kv in j[2].items()), ' '.join(j[1]), ' '.join(j[3]))})
    for j, r in c.pmap(one, jobs):
        what, a = j
        m = re.search(r'(?m)^OK (.*)$', r.out)
        if m and r.rc == 0:
            v = [int(x) for x in m.group(1).split()]
            if what == 'masks':
                tot['mask_checks'] += v[0]
            else:
                tot['sequences'] += v[0]; tot['operations'] += v[1]
                tot['collections'] += v[2]; tot['rightly_refused'] += v[3]
            continue
        if r.rc == 2:
            c.die('harness: ' + r.out[-300:])
        b = re.search(r'BAD (.*)', r.out)
        text = b.group(1) if b else (r.out[-400:] or 'rc %s' % r.rc)
        kind = re.sub(r'\d+', 'N', (b.group(1) if b else 'crash').split(' after ')[0])[:60]
        c.violation('%s:%s' % ('masks' if what == 'masks' else 'heap', kind), '%s: %s' % (what, text[:600]),
                    {'cmd.txt': ' '.join(a) + '\n' + r.out[-2000:]})
    c.finish({'states': tot['sequences'] + scripts, 'transitions': tot['operations'] + tot['mask_checks'],
              'traces_validated_against_impl': tot['sequences'] + scripts,
              'scripts_in_designs': scripts, **tot, 'exhaustive': True,
              'bounds': 'heaps of 5 to 193 lines, 2 roots, sequences of %s operations; design scripts of %d operations out of 22' % ('4-6' if c.thorough else '3-5', D)},
             ['the collector is conservative: words left in the padding of reachable objects may keep others alive',
              'one mutator thread; stopping other threads is part of P17'])


if __name__ == '__main__':
    vf.main(body)
