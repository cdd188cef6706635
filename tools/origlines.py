#!/usr/bin/env python3
"""Which planted changes touch lines of the original repository (and not only
ones that /repo's later commits added)?"""
import os, re, subprocess
base = subprocess.run(['git','-C','/repo','rev-list','--max-parents=0','HEAD'],capture_output=True,text=True).stdout.strip()
for d in sorted(os.listdir('/verif/seeded')):
    p = f'/verif/seeded/{d}/patch.diff'
    f = None; orig = mine = add = 0
    for l in open(p):
        if l.startswith('--- '): f = l[6:].strip(); blame = {}
        elif l.startswith('@@'):
            n = int(re.match(r'@@ -(\d+)', l).group(1))
        elif l.startswith('+++') or l.startswith('diff') or l.startswith('index'): pass
        elif l.startswith('-'):
            o = subprocess.run(['git','-C','/repo','blame','-l','-s',f'-L{n},{n}','HEAD','--',f],capture_output=True,text=True).stdout
            if o.lstrip('^')[:39] == base[:39]: orig += bool(l[1:].strip())
            else: mine += 1
            n += 1
        elif l.startswith('+'): add += 1
        else: n += 1
    print(f'{d:28} original {orig} mine {mine} added {add}')
