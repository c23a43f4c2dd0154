#!/usr/bin/env python3
"""P17: locks give mutual exclusion and no lost wake-ups; barriers and
stop-the-world keep their promise under every schedule within the bounds.
The real thread.c runs under the controlled scheduler of /verif/conc."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, conc

S = [
    # scenario, arg, quick (preemptions, delayed stores), thorough, what
    ('sc_lock', 211, (8, 2), (20, 4), '2 threads take one lock once'),
    ('sc_lock', 212, (6, 1), (10, 2), '2 threads take one lock twice'),
    ('sc_lock', 213, (5, 1), (7, 2), '2 threads take one lock three times'),
    ('sc_lock', 222, (6, 1), (9, 2), '2 threads take two locks alternately'),
    ('sc_lock', 311, (4, 1), (6, 1), '3 threads take one lock once'),
    ('sc_lock', 312, (3, 1), (5, 1), '3 threads take one lock twice'),
    ('sc_lock', 321, (4, 1), (6, 1), '3 threads take two locks'),
    ('sc_lock', 411, (2, 1), (3, 1), '4 threads take one lock once'),
    ('sc_nested', 21, (6, 1), (9, 2), '2 threads take two nested scoped locks'),
    ('sc_nested', 22, (5, 1), (7, 2), '2 threads take two nested scoped locks twice'),
    ('sc_nested', 31, (3, 1), (5, 1), '3 threads take two nested scoped locks'),
    ('sc_barrier', 22, (4, 1), (7, 2), '2 threads pass a barrier twice'),
    ('sc_barrier', 23, (3, 1), (5, 2), '2 threads pass a barrier three times'),
    ('sc_barrier', 32, (2, 0), (2, 1), '3 threads pass a barrier twice'),
    ('sc_stop', 201, (4, 1), (6, 2), 'the world with one other thread is stopped twice'),
    ('sc_stop', 211, (4, 1), (6, 1), 'the world is stopped twice while another thread takes a lock'),
    ('sc_stop', 302, (1, 0), (2, 0), 'the world with two other threads is stopped twice'),
    ('sc_stop', 311, (1, 0), (2, 0), 'the world is stopped twice while two other threads take a lock'),
]

if __name__ == '__main__':
    vf.main(lambda: conc.run_property('P17', S, 'model_checking', [
        'sequentially consistent execution plus delayed atomic stores (store buffers); plain accesses are covered by a data-race check',
        'threads are preempted only at atomic operations and pthread, semaphore and signal calls, which is sufficient for code without data races',
        'signals are delivered at those points too']))
