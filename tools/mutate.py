#!/usr/bin/env python3
"""Mutation sweep, a development aid: how well do the checks see small changes?

  mutate.py list                          number of changes per file
  mutate.py run OUT.jsonl [N workers] [sample] [path substring] [seed]
  mutate.py again OLD.jsonl OUT.jsonl [N workers]   those that survived, once more

Works on copies of /repo and /verif in /tmp/mut/wN, never on /repo itself.  Each
change that compiles and passes the repository's tests is put to the checks that
should see it, until one does.
"""
import json, os, random, re, shutil, subprocess, sys, threading, queue

# A snapshot of /repo, made when the sweep starts.
REPO = '/tmp/mut/base'
PATHS = [
    ('src/main.rs', 'C13 C12'),
    ('src/block_device/reader', 'C11 C17 C23'),
    ('src/block_device/', 'C28 C11 C12 C13 C23'),
    ('src/ioctl', 'C28'),
    ('src/ext/', 'C02 C15 C06 C17'),
    ('src/md/raid5', 'C04 C22'),
    ('src/md/raid6', 'C05 C06 C07 C24 C22'),
    ('src/md/array', 'C06 C07 C08 C10 C09 C22 C23'),
    ('src/md/definition', 'C09 C08 C06 C10 C22'),
    ('src/md/diagnosis', 'C09 C13'),
    ('src/md/device', 'C01 C09 C23 C22 C13'),
    ('src/md/superblock/version_0', 'C03 C01 C09 C22'),
    ('src/md/superblock/version_1', 'C02 C01 C09 C22 C10'),
    ('src/md/superblock', 'C02 C03 C09 C08'),
    ('src/md/', 'C04 C05 C10 C06 C09 C22 C02 C03 C08'),
    ('src/ext4/superblock', 'C15 C14 C17 C21'),
    ('src/ext4/inode', 'C16 C17 C21 C18'),
    ('src/ext4/directory', 'C19 C20 C21 C23'),
    ('src/ext4/extent', 'C27 C18 C20 C21 C23'),
    ('src/ext4/file', 'C18 C20 C21 C23 C19'),
    ('src/ext4/regular', 'C18 C20 C23'),
    ('src/ext4/string', 'C25 C19 C15'),
    ('src/ext4/block_group', 'C26 C17 C21'),
    ('src/ext4/fs', 'C17 C14 C23 C21 C18'),
    ('src/ext4', 'C17 C18 C15 C19 C21 C20'),
]

def checks(path):
    return next(c for p, c in PATHS if path.startswith(p)).split()

def sources():
    fs = subprocess.check_output(['git', '-C', REPO, 'ls-files', 'src'], text=True).split()
    return [f for f in fs if f.endswith('.rs') and 'test' not in os.path.basename(f)]

OPS = [
    (r' == ', [' != ']), (r' != ', [' == ']),
    (r' <= ', [' < ', ' > ']), (r' >= ', [' > ', ' < ']),
    (r'(?<=[\w)\]]) < (?=[\w(&*])', [' <= ', ' >= ']), (r'(?<=[\w)\]]) > (?=[\w(&*])', [' >= ', ' <= ']),
    (r' \+ ', [' - ']), (r'(?<=[\w)\]]) - ', [' + ']), (r'(?<=[\w)\]]) \* ', [' / ', ' + ']), (r' / ', [' * ']), (r' % ', [' / ']),
    (r' \+= ', [' -= ', ' = ']), (r' -= ', [' += ']),
    (r' << ', [' >> ']), (r' >> ', [' << ']), (r'(?<=[\w)\]]) \| (?=[\w(])', [' & ']), (r'(?<=[\w)\]]) & (?=[\w(])', [' | ']), (r' \^= ', [' = ', ' |= ']),
    (r' && ', [' || ']), (r' \|\| ', [' && ']),
    (r'\btrue\b', ['false']), (r'\bfalse\b', ['true']),
    (r'if !', ['if ']), (r'\bif (?!let|!)', ['if !']),
    (r'_low\b', ['_high']), (r'_high\b', ['_low']),
    (r'\.\.=', ['..']), (r'(?<=[\w(\[])\.\.(?=[\w(])', ['..=']),
    (r'\bmin\(', ['max(']), (r'\bmax\(', ['min(']),
    (r'\bis_some\b', ['is_none']), (r'\bis_none\b', ['is_some']), (r'\bis_err\b', ['is_ok']), (r'\bis_ok\b', ['is_err']),
    (r'\ball\(', ['any(']), (r'\bany\(', ['all(']),
    (r'checked_(add|sub|mul)', [r'wrapping_\1X']),
    (r'\bLittleEndian\b', ['BigEndian']), (r'\bBigEndian\b', ['LittleEndian']),
    (r'\bfrom_le\b', ['from_be']), (r'\bfrom_be\b', ['from_le']),
    (r': u64\b(?=,?$)', []),
]
NUM = re.compile(r'(?<![\w.])(0x[0-9a-fA-F_]+|\d[\d_]*)(?=(?:u8|u16|u32|u64|usize|i32|i64)?\b)')

def mutants(path):
    text = open(f'{REPO}/{path}').read()
    cut = re.search(r'^#\[cfg\(test\)\]\n', text, re.M)
    lines = text[:cut.start()].split('\n') if cut else text.split('\n')
    skip = False
    for i, line in enumerate(lines):
        s = line.strip()
        if not s or s.startswith(('//', '#', 'use ', 'mod ', 'pub mod', 'pub use', 'extern')):
            continue
        code = line.split('//')[0]
        def at(a, b, new):
            return (path, i, line, line[:a] + new + line[b:])
        for pat, news in OPS:
            for m in re.finditer(pat, code):
                for n in news:
                    n2 = m.expand(n) if '\\' in n else n
                    if n2.endswith('X'): continue
                    yield at(m.start(), m.end(), n2)
        for m in NUM.finditer(code):
            t = m.group(1)
            try: v = int(t.replace('_', ''), 0)
            except ValueError: continue
            vals = {v + 1, v - 1 if v else 1, 0}
            if v > 8: vals = {v + 1, v - 1, v * 2}
            for n in sorted(vals - {v}):
                yield at(m.start(1), m.end(1), hex(n) if t.startswith('0x') else str(n))
        # A statement left out.
        if s.endswith(';') and not s.startswith(('let ', 'return', 'pub ', 'const', 'static', 'type ', '}')) and code.count('(') == code.count(')'):
            yield (path, i, line, '')
        # A link of a chain left out.
        m = re.match(r'^(\s*)\.\w+(?:::<[^>]*>)?\(.*\)(\??[,;]?)$', line)
        if m and code.count('(') == code.count(')'):
            yield (path, i, line, m[1] + m[2])
        # Fewer bits.
        for m in re.finditer(r'\b(?:u64|usize|u32)::from\([\w.]+\)', code):
            for bits in ('0xffff_ffff', '0xffff', '!0xff_ffff'):
                yield at(m.start(), m.end(), f'({m[0]} & {bits})')
        # A condition with an exception, or without one.
        m = re.match(r'^(\s*)if (?!let)(.*) \{$', line)
        if m and ' && ' in m[2]:
            for k, part in enumerate(m[2].split(' && ')):
                parts = m[2].split(' && '); del parts[k]
                yield (path, i, line, m[1] + 'if ' + ' && '.join(parts) + ' {')
        # An alternative left out.
        if re.match(r'^\| [\w:]+$', s):
            yield (path, i, line, '')
        # An arm left out, where others may take it.
        if re.match(r'^\S.*=> .*,$', s) and not s.startswith('_'):
            yield (path, i, line, '')
        # Swapped neighbours.
        if i + 1 < len(lines) and s.endswith(',') and lines[i+1].strip().endswith(',') and re.match(r'^\w+: \w.*,$', s) and re.match(r'^\w+: \w.*,$', lines[i+1].strip()):
            a = re.match(r'^(\s*)(\w+)(: .*)$', line); b = re.match(r'^(\s*)(\w+)(: .*)$', lines[i+1])
            if a and b:
                yield (path, i, line, a[1] + b[2] + a[3] + '\0' + b[1] + a[2] + b[3])

# The second family: what only unusual values tell.
SWAPS = [
    (r'\.checked_add\(', ['.wadd(']), (r'\.checked_sub\(', ['.wsub(']), (r'\.checked_mul\(', ['.wmul(']),
    (r'\.checked_(add|sub|mul)\(', [r'.s\1(']),
    (r'\.saturating_(add|sub|mul)\(', [r'.wrapping_\1(']), (r'\.wrapping_(add|sub|mul)\(', [r'.saturating_\1(']),
    (r'\.try_into\(\)', ['.winto()']), (r'\b(u8|u16|u32|u64|usize|i32|i64)::try_from\(', [r'<\1 as WFrom>::wfrom(']),
    (r'\bfrom_bits_retain\b', ['from_bits_truncate']), (r'\bfrom_bits_truncate\b', ['from_bits_retain']),
    (r'\.first\(\)', ['.last()']), (r'\.last\(\)', ['.first()']), (r'\.rev\(\)', ['']),
    (r'\bchunks_exact\(', ['chunks(']), (r'\btake_while\(', ['filter(', 'skip_while(']), (r'\bskip_while\(', ['filter(']),
    (r'\bmap_while\(', ['filter_map(']), (r'\bfilter_map\(', ['map_while(']), (r'\bfilter\(', ['take_while(', 'skip_while(']),
    (r'\.or\(', ['.and(']), (r'\bposition\(', ['rposition(']), (r'\bstarts_with\(', ['ends_with(', 'contains(']),
    (r'\.find\(', ['.rfind(']), (r'\bmin_by_key\(', ['max_by_key(']), (r'\bmax_by_key\(', ['min_by_key(']),
    (r'\bread_exact\(', ['read(']), (r'\bread_all\(', ['read_exact(']),
    (r'(?<=[\w)\]])\?(?=[;,.)])', ['.unwrap()']), (r'\.ok_or\([^()]*\)\?', ['.unwrap()']), (r'\.unwrap\(\)', ['.unwrap_or_default()']),
    (r'(?<=\w)\?;$', ['.ok();', '.unwrap_or_default();']), (r'\)\?;$', [').ok();', ').unwrap_or_default();']),
    (r'\bdiv_ceil\(', ['div_euclid(']), (r'\bto_vec\(\)', ['to_vec().into_iter().rev().collect()']),
    (r'\.is_empty\(\)', ['.len().lt(&2)']), (r'\.len\(\)', ['.len().saturating_sub(1)', '.len().saturating_add(1)']),
    (r'\bu64\b(?!::try_from|::from)', ['u32']), (r'\bu32\b', ['u16']), (r'\busize\b', ['u16', 'u32']), (r'\bi32\b', ['u32']), (r'\bi64\b', ['i32', 'u64']), (r'\bu16\b', ['u8', 'i16']),
    (r'\.get\(\)', ['.get() & !1', '.get().rotate_left(1) / 2 * 2 ']),
    (r'\.to_le_bytes\b', ['.to_be_bytes']), (r'\beq\(', ['ne(']), (r'\.cloned\(\)', ['.cloned().take(1)']),
    (r'SeekFrom::Start\(', ['SeekFrom::Start(1 + ']),
    (r'\.clone\(\)', ['.clone().into_iter().collect()']),
    (r'\.sort\w*\([^()]*\)', ['']), (r'\.dedup\w*\([^()]*\)', ['']),
    (r'\bSome\((?=[\w.]+\) =>)', ['Some(mut ']),
]
HELP = """
#[allow(dead_code)]
trait WMut: Sized { fn wadd(self, o: Self) -> Option<Self>; fn wsub(self, o: Self) -> Option<Self>; fn wmul(self, o: Self) -> Option<Self>;
    fn sadd(self, o: Self) -> Option<Self>; fn ssub(self, o: Self) -> Option<Self>; fn smul(self, o: Self) -> Option<Self>; }
#[allow(dead_code)]
trait WFrom: Sized { fn wfrom<T: WTo>(t: T) -> Result<Self, std::num::TryFromIntError>; }
#[allow(dead_code)]
trait WTo: Sized { fn w(self) -> i128; fn winto<U: WFrom>(self) -> Result<U, std::num::TryFromIntError> { U::wfrom(self) } }
macro_rules! wmut { ($($t:ty)*) => { $(
    impl WMut for $t { fn wadd(self, o: Self) -> Option<Self> { Some(self.wrapping_add(o)) } fn wsub(self, o: Self) -> Option<Self> { Some(self.wrapping_sub(o)) } fn wmul(self, o: Self) -> Option<Self> { Some(self.wrapping_mul(o)) }
        fn sadd(self, o: Self) -> Option<Self> { Some(self.saturating_add(o)) } fn ssub(self, o: Self) -> Option<Self> { Some(self.saturating_sub(o)) } fn smul(self, o: Self) -> Option<Self> { Some(self.saturating_mul(o)) } }
    impl WFrom for $t { fn wfrom<T: WTo>(t: T) -> Result<Self, std::num::TryFromIntError> { Ok(t.w() as $t) } }
    impl WTo for $t { fn w(self) -> i128 { self as i128 } }
)* } }
wmut!(u8 u16 u32 u64 usize i32 i64);
"""

def mutants2(path):
    text = open(f'{REPO}/{path}').read()
    cut = re.search(r'^#\[cfg\(test\)\]\n', text, re.M)
    lines = text[:cut.start()].split('\n') if cut else text.split('\n')
    for i, line in enumerate(lines):
        s = line.strip()
        if not s or s.startswith(('//', '#', 'use ', 'mod ', 'pub mod', 'pub use', 'extern')):
            continue
        code = line.split('//')[0]
        for pat, news in SWAPS:
            for m in re.finditer(pat, code):
                for n in news:
                    yield (path, i, line, line[:m.start()] + m.expand(n) + line[m.end():])
        # Comparisons that don't see every bit.
        for m in re.finditer(r'([\w.]+(?:\(\))?) (==|!=|<|>|<=|>=) ([\w.]+(?:\(\))?)', code):
            a, o, b = m.groups()
            for x in (f'({a} | 1) {o} ({b} | 1)', f'(({a}) >> 8) {o} (({b}) >> 8)'):
                yield (path, i, line, line[:m.start()] + x + line[m.end():])
        # One statement earlier.
        if i and not s.startswith(('const ', 'pub const', 'type ', 'pub type')) and s.endswith(';') and lines[i-1].strip().endswith(';') and len(line) - len(line.lstrip()) == len(lines[i-1]) - len(lines[i-1].lstrip()):
            yield (path, i - 1, lines[i-1], line + '\0' + lines[i-1])

def all_mutants(sub=''):
    out, seen = [], set()
    for p in sources():
        if sub in p:
            for m in (mutants2 if os.environ.get('MUT_FAMILY') == '2' else mutants)(p):
                if m[3] != m[2] and m not in seen:
                    seen.add(m); out.append(m)
    return out

def prepare(w):
    base = f'/tmp/mut/w{w}'
    if not os.path.exists(f'{base}/ok'):
        shutil.rmtree(base, ignore_errors=True); os.makedirs(base)
        subprocess.check_call(['cp', '-a', REPO, f'{base}/repo'])
        os.makedirs(f'{base}/verif')
        subprocess.check_call(f'cd /verif && git archive HEAD | tar x -C {base}/verif --exclude=seeded', shell=True)
        for f in ('env.sh', 'harness/cli/Cargo.toml', 'harness/shim/Cargo.toml'):
            f = f'{base}/verif/{f}'; t = open(f).read()
            t = t.replace('path = "/repo/', f'path = "{base}/repo/').replace('cd /repo', f'cd {base}/repo')
            open(f, 'w').write(t)
        open(f'{base}/ok', 'w').close()
    return base

def sh(w, cmd, cwd, timeout, **env):
    try:
        return subprocess.run(['taskset', '-c', str(w % os.cpu_count()), 'bash', '-c', cmd], cwd=cwd, timeout=timeout, capture_output=True, text=True,
                              env={**os.environ, 'CARGO_NET_OFFLINE': 'true', **env})
    except subprocess.TimeoutExpired as e:
        subprocess.run(['pkill', '-9', '-f', cwd])
        return None

def one(w, base, m, everything=False, only=None):
    path, i, old, new = m
    f = f'{base}/repo/{path}'
    text = open(f'{REPO}/{path}').read(); lines = text.split('\n')
    assert lines[i] == old
    if '\0' in new:
        lines[i], lines[i+1] = new.split('\0')
    else: lines[i] = new
    if any(x in new for x in ('.wadd(', '.wsub(', '.wmul(', '.sadd(', '.ssub(', '.smul(', '.winto(', 'wfrom(')): lines.append(HELP)
    open(f, 'w').write('\n'.join(lines))
    try:
        r = sh(w, f'ulimit -v 8000000; cargo test -q --offline', f'{base}/repo', 120)
        if r is None: return 'tests hang', None
        if r.returncode:
            return ('build' if 'could not compile' in r.stderr else 'tests'), None
        killed = []
        for c in (only or checks(path)):
            r = sh(w, f'./check.sh {c}', f'{base}/verif', 400, VERIF_SEED='1', VERIF_TIER='quick', MDV_SCALE=os.environ.get('MUT_SCALE', '0.4'))
            if r is not None and r.returncode == 1 and f'VIOLATION property={c}' in r.stdout:
                killed.append(c)
                if not everything: break
            elif r is None or r.returncode != 0:
                killed.append(c + '?')
                if not everything: break
        return ('killed' if killed else 'SURVIVED'), killed
    finally:
        open(f, 'w').write(text)

def main():
    if not os.path.exists(REPO):
        os.makedirs('/tmp/mut', exist_ok=True)
        subprocess.check_call(['cp', '-a', '/repo', REPO])
        subprocess.check_call(['git', '-C', REPO, 'checkout', '-q', '--', '.'])
    if sys.argv[1] == 'list':
        n = 0
        for p in sources():
            k = len(list(mutants(p))); n += k; print(k, p)
        print(n); return
    if sys.argv[1] == 'again':
        olds = [json.loads(l) for l in open(sys.argv[2])]
        ms = [(d['path'], d['line'] - 1, d['old'], d['new']) for d in olds if d['result'] == 'SURVIVED']
        sweep(ms, sys.argv[3], int(sys.argv[4])); return
    out = sys.argv[2]; workers = int(sys.argv[3]); sample = int(sys.argv[4]); sub = sys.argv[5] if len(sys.argv) > 5 else ''
    seed = sys.argv[6] if len(sys.argv) > 6 else '1'
    ms = all_mutants(sub); random.Random(seed).shuffle(ms); ms = ms[:sample]
    sweep(ms, out, workers)

def sweep(ms, out, workers):
    done = set()
    if os.path.exists(out):
        for l in open(out):
            d = json.loads(l); done.add((d['path'], d['line'] - 1, d['old'], d['new']))
    q = queue.Queue()
    for m in ms:
        if m not in done: q.put(m)
    lock = threading.Lock()
    def run(w):
        base = prepare(w)
        while True:
            try: m = q.get_nowait()
            except queue.Empty: return
            r, by = one(w, base, m)
            with lock, open(out, 'a') as o:
                o.write(json.dumps({'path': m[0], 'line': m[1] + 1, 'old': m[2], 'new': m[3], 'result': r, 'by': by}) + '\n')
    ts = [threading.Thread(target=run, args=(w,)) for w in range(workers)]
    for t in ts: t.start()
    for t in ts: t.join()

if __name__ == '__main__':
    main()
