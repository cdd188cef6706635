#!/usr/bin/env python3
"""Refreshes the table of planted changes in DESIGN.md."""
import json, os, re
first = {'extent-carry': 'block numbers now straddle multiples of 2^32',
         'duplicate-member-first': 'copies, relabelled and stale members now have to be refused',
         'inode-offset-32': '`Geo::tall` makes inode tables of more than 4 GiB',
         'csum-generation-zero': 'inode fields are now often zero',
         'raid5-many-devices': 'device counts now reach 2^32 - 1',
         'v0-uuid-words': 'superblock fields are now often zero, or equal to one another',
         'owned-unverified': 'C27 now tests copies of bad nodes too',
         'capacity-few-devices': 'C10 now requires no capacity where none can be determined',
         'reader-eof': 'C11 now compares kinds of errors',
         'csum-seed-zero': 'checksum seeds are now often 0 or 2^32 - 1',
         'zero-row-trusted': 'C07 now overwrites all data of a row with zeros',
         'groups-reserve': 'C21 and C22 now measure memory',
         'roles-384': 'device tables now have up to 1919 entries in C06 too',
         'v0-stale-descriptors': 'there are now remains after the last descriptor',
         'three-members-trusted': 'arrays of three members are now made',
         'delete-time-signed': 'times of deletion from 2038 on were left out',
         'cli-lossy-path': 'C13 now wants exactly one line for each failing path',
         'seek-remembered': 'clones of devices now share one position in half of the cases, as those of files do',
         'backup-superblock': 'half of the file systems now hold copies of their superblock and descriptors',
         'reconstruct-on-error': 'C07 now also damages rows of which a sector cannot be read',
         'cli-dash': 'paths that look like options and the like are now given',
         'canonical-path': 'devices are now also given by links, and by names that only their directories tell apart',
         'node-verified-once': 'damaged trees and directories now also lead to sound blocks of others, read before',
         'reader-count-unwrap': 'C11 and C23 now fail any call of the devices under a reader that goes to the end',
         'reader-rewind': 'C11 now also rewinds and seeks relatively',
         'reader-vectored': 'C11 now also reads into several buffers',
         'deleted-recursion': 'long stretches of deleted records are now also walked by an unoptimised build',
         'data-equals-parity': 'C07 now also damages rows of plain contents, some of them equal to their parity',
         'row-verified-once': 'C07 and C20 now also damage what was read already',
         'debug-only-read': 'a part of every check now also runs in a build without debug assertions',
         'debug-only-seek': 'the same',
         'offset-wraps': 'C10 now records data offsets beyond the device, some of which wrap around to where the data is',
         'table-wraps': 'C17 now misplaces inode tables',
         'claimed-size': 'C22 has devices that claim sizes they do not have',
         'groups-16': '`Geo::wide` makes more than 65536 groups',
        }
def meta(d): return json.load(open(f'/verif/seeded/{d}/meta.json'))
rows = ['| change | check | what it needs to show |', '|---|---|---|']
for d in sorted(os.listdir('/verif/seeded'), key=lambda d: (meta(d)['property'], d)):
    m = meta(d)
    n = f" *Missed at first: {first[d]}.*" if d in first else ''
    rows.append(f"| {d} | {m['property']} | {m['needs'].replace('|','/')}{n} |")
t = open('/verif/DESIGN.md').read()
t = re.sub(r'(?s)<!-- planted -->.*<!-- /planted -->', lambda _: '<!-- planted -->\n' + '\n'.join(rows) + '\n<!-- /planted -->', t)
open('/verif/DESIGN.md', 'w').write(t)
