#!/usr/bin/env python3
"""P18: every queued task runs exactly once and draining waits for all of them,
under every schedule within the bounds.  The real thread.c runs under the
controlled scheduler of /verif/conc."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, conc

S = [
    ('sc_serial', 2, (4, 1), (6, 1), 'a queue that is not thread safe runs its tasks in order'),
    ('sc_workq', 211, (3, 1), (5, 2), '1 task on 2 processors'),
    ('sc_workq', 212, (3, 1), (4, 1), '2 tasks on 2 processors'),
    ('sc_workq', 213, (2, 1), (3, 1), '3 tasks on 2 processors'),
    ('sc_workq', 222, (2, 1), (3, 1), '2 tasks on 2 processors, queue used twice'),
    ('sc_workq', 223, (2, 1), (3, 0), '3 tasks on 2 processors, queue used twice'),
    ('sc_workq', 233, (1, 1), (2, 1), '3 tasks on 2 processors, queue used three times'),
    ('sc_workq', 313, (2, 0), (2, 1), '3 tasks on 3 processors'),
    ('sc_workq', 314, (1, 1), (2, 0), '4 tasks on 3 processors'),
    ('sc_workq', 322, (1, 1), (2, 0), '2 tasks on 3 processors, queue used twice'),
    ('sc_workq', 219, (1, 1), (2, 1), '9 tasks on 2 processors (more than one batch)'),
    ('sc_async', 212, (3, 1), (4, 1), '2 asynchronous tasks on 2 processors'),
    ('sc_async', 222, (2, 1), (3, 1), '2 asynchronous tasks on 2 processors, twice'),
    ('sc_async', 313, (1, 1), (2, 0), '3 asynchronous tasks on 3 processors'),
    ('sc_async', 219, (1, 1), (2, 0), '9 asynchronous tasks on 2 processors'),
    ('sc_mixed', 22, (2, 1), (3, 0), 'a work queue and asynchronous tasks on 2 processors'),
    ('sc_mixed', 32, (1, 1), (2, 0), 'a work queue and asynchronous tasks on 3 processors'),
    ('sc_multi', 21, (1, 1), (2, 0), 'tasks queued by 2 threads'),
    ('sc_multi', 22, (1, 1), (2, 0), 'two tasks queued by each of 2 threads'),
    ('sc_multi', 32, (1, 0), (1, 1), 'two tasks queued by each of 3 threads'),
]

if __name__ == '__main__':
    vf.main(lambda: conc.run_property('P18', S, 'model_checking', [
        'sequentially consistent execution plus delayed atomic stores (store buffers); plain accesses are covered by a data-race check',
        'threads are preempted only at atomic operations and pthread calls, which is sufficient for code without data races']))
