#!/usr/bin/env python3
"""P19: the concurrent hash table is linearizable and identifiers are unique,
also while the tables grow, under every schedule within the bounds.  The real
hash.c and ident.c run under the controlled scheduler of /verif/conc."""
import os, sys
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), '..', 'lib'))
import vf, conc

# arg: program * 100 + initial size * 10 + entries already present
S = [
    ('sc_chash', 40, (5, 1), (8, 2), 'put and get of two keys by 2 threads'),
    ('sc_chash', 41, (5, 1), (7, 2), 'put and get of two keys, one entry present'),
    ('sc_chash', 84, (4, 1), (5, 1), 'put and get of two keys, the table grows'),
    ('sc_chash', 142, (4, 1), (6, 1), 'put and get of the same key, two entries present'),
    ('sc_chash', 143, (4, 0), (5, 1), 'put and get of the same key, the table grows'),
    ('sc_chash', 149, (5, 1), (7, 2), 'put and get of a key that is present'),
    ('sc_chash', 240, (4, 1), (6, 1), 'puts of different keys and get'),
    ('sc_chash', 242, (3, 1), (5, 1), 'puts of different keys and get while the table grows'),
    ('sc_chash', 243, (3, 1), (4, 1), 'puts of different keys and get while the table grows'),
    ('sc_chash', 249, (4, 1), (5, 1), 'puts of a new and a present key and get'),
    ('sc_chash', 342, (4, 1), (6, 1), 'compare-and-swap of the same key by 2 threads'),
    ('sc_chash', 481, (2, 1), (3, 1), 'two puts of the same key and a reader'),
    ('sc_chash', 583, (2, 1), (3, 0), '3 threads put four keys and get'),
    ('sc_chash', 649, (2, 1), (3, 0), '2 updates of a present key, readers and growth'),
    ('sc_chash', 683, (2, 0), (3, 0), '2 updates of a key, readers and insertions'),
    ('sc_chash', 684, (2, 0), (2, 1), '2 updates of a key, readers and growth'),
    ('sc_chash', 749, (2, 1), (3, 0), 'update of a present key, reader and insertion'),
    ('sc_chash', 783, (2, 1), (3, 0), 'updates, reader and insertion by 3 threads'),
    ('sc_chash', 784, (2, 1), (3, 0), 'updates, reader and growth by 3 threads'),
    ('sc_chash', 880, (3, 1), (4, 1), '6 insertions by 2 threads while the table grows'),
    ('sc_chash', 883, (3, 0), (4, 0), '6 insertions by 2 threads, three entries present'),
    ('sc_chash', 984, (2, 1), (3, 0), 'compare-and-swap of the same key by 3 threads'),
    ('sc_chash', 1084, (3, 1), (4, 1), 'compare-and-swap of new keys while the table grows'),
    ('sc_chash', 1142, (4, 0), (5, 1), 'compare-and-swap against put'),
    ('sc_chash', 1149, (4, 1), (6, 1), 'compare-and-swap against put of a present key'),
    ('sc_chash', 1249, (3, 1), (4, 1), 'compare-and-swap of a present key, insertion and reader'),
    ('sc_ident', 0, (6, 1), (9, 2), 'the same new identifier made by 2 threads'),
    ('sc_ident', 10, (5, 1), (7, 2), 'two identifiers made by 2 threads in opposite order'),
    ('sc_ident', 12, (4, 1), (6, 1), 'two identifiers, two present'),
    ('sc_ident', 13, (4, 1), (5, 1), 'two identifiers, three present (the table grows)'),
    ('sc_ident', 24, (4, 0), (4, 1), 'four identifiers by 2 threads, four present'),
    ('sc_ident', 33, (2, 1), (3, 0), 'three identifiers by 3 threads, three present'),
    ('sc_ident', 43, (3, 1), (4, 1), 'six identifiers by 2 threads, three present'),
]

if __name__ == '__main__':
    vf.main(lambda: conc.run_property('P19', S, 'model_checking', [
        'the initial size of a hash table is at least twice the number of threads (as in every use in nvc)',
        'sequentially consistent execution plus delayed atomic stores (store buffers); plain accesses are covered by a data-race check',
        'the initial size of the identifier table and the probe limit are reduced so that the table grows within the bounds']))
