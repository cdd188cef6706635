#!/usr/bin/env python3
"""newplant.py ID PROPERTY FILE <<< sections: reads a spec file with sections
### old / ### new / ### needs / ### breaks / ### demo, and writes
tools/plants/ID.py, seeded/ID/meta.json and seeded/ID/t.rs."""
import json, os, re, sys
def main():
    text = sys.stdin.read()
    for part in re.split(r'^#### ', text, flags=re.M)[1:]:
        head, body = part.split('\n', 1)
        ident, prop = head.split()
        secs = re.split(r'^### (.*)\n', body, flags=re.M)[1:]
        edits, meta, demo, file, old = [], {}, '', None, None
        for name, val in zip(secs[::2], secs[1::2]):
            name = name.strip(); val = val.rstrip('\n') + '\n'
            if name.startswith('old '): file, old = name[4:].strip(), val
            elif name == 'new': edits.append((file, old, val))
            elif name == 'demo': demo = val
            else: meta[name] = ' '.join(val.split())
        d = f'/verif/seeded/{ident}'; os.makedirs(d, exist_ok=True)
        json.dump({'property': prop, 'needs': meta['needs'], 'what_it_breaks': meta['breaks']}, open(f'{d}/meta.json', 'w'), indent=1)
        open(f'{d}/meta.json','a').write('\n')
        if demo.strip() != 'CLI': open(f'{d}/t.rs', 'w').write('use super::kit::*;\n\n' + demo)
        with open(f'/verif/tools/plants/{ident}.py', 'w') as f:
            f.write('# Makes the planted change, in a copy of the repository.\n')
            f.write('for path, old, new in %s:\n' % json.dumps(edits, indent=1))
            f.write('    s = open(path).read()\n    assert s.count(old) == 1, (path, s.count(old))\n    open(path, "w").write(s.replace(old, new))\n')
        print('wrote', ident)
main()
