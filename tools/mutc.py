#!/usr/bin/env python3
"""mutc.py: mechanical mutants of the published clients and the IDL, put to P17 / P22. Works in /tmp/mutc.
N=workers."""
import os, re, subprocess, sys, threading, queue, json, glob
REPO, W = '/repo', '/tmp/mutc'
def mutants(f):
    text = open(f'{REPO}/{f}').read()
    out = []
    def add(i, j, new, what):
        line = text.count('\n', 0, i) + 1
        ls = text.rfind('\n', 0, i) + 1
        l = text[ls:text.find('\n', i)].strip()
        if l.startswith(('//', 'use ', '*', '/*', '#[', 'import', '///')): return
        out.append((f, line, what, text[:i] + new + text[j:]))
    def sub(pat, new, what):
        for m in re.finditer(pat, text):
            r = m.expand(new)
            if r != m.group(0): add(m.start(), m.end(), r, f'{what}: {" ".join(m.group(0).split())[:60]!r} -> {" ".join(r.split())[:60]!r}')
    for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?![\w.])', text):
        n = int(m.group(1).replace('_', ''))
        add(m.start(), m.end(), str(n + 1), f'number {n} -> {n + 1}')
    if f.endswith('.rs'):
        sub(r'AccountMeta::new\(', 'AccountMeta::new_readonly(', 'meta')
        sub(r'AccountMeta::new_readonly\(', 'AccountMeta::new(', 'meta')
        sub(r'\btrue\b', 'false', 'bool'); sub(r'\bfalse\b', 'true', 'bool')
        sub(r'is_some\(\)', 'is_none()', 'opt')
        for m in re.finditer(r'(?m)^( +)((?:[a-z_][\w.]*(?:::\w+)*(?:\s*=\s|\s*\())(?:[^;{}]|\{[^{}]*\})*?;)\n', text):
            s = m.group(2)
            if s.startswith(('let ', 'return', 'use ')): continue
            add(m.start(2), m.end(2), '', f'left out: {" ".join(s.split())[:90]!r}')
    elif f.endswith('.ts'):
        sub(r'\btrue\b', 'false', 'bool'); sub(r'\bfalse\b', 'true', 'bool')
        sub(r'\bu64\(', 'u32(', 'width'); sub(r'\bu8\(', 'u16(', 'width'); sub(r'\bi64\(', 'u64(', 'sign'); sub(r'\bu128\(', 'u64(', 'width')
        sub(r'\bi8\(', 'u16(', 'width'); sub(r'\bu32\(', 'u64(', 'width'); sub(r'\bu16\(', 'u32(', 'width')
        sub(r' === ', ' !== ', 'cmp'); sub(r' !== ', ' === ', 'cmp'); sub(r' \?\? (\w+)', ' ?? undefined', 'default')
        sub(r'if \(!', 'if (', 'neg'); sub(r'if \((?!!)', 'if (!', 'neg')
        sub(r"publicKey\('(.)", r"publicKey('1", 'key'); sub(r"'(\w)(\w+)'", r"'x\2'", 'name')
        sub(r'input\.(\w+)', 'undefined', 'input')
    else:
        sub(r'\btrue\b', 'false', 'bool'); sub(r'\bfalse\b', 'true', 'bool')
        sub(r'"u64"', '"u32"', 'width'); sub(r'"u8"', '"u16"', 'width'); sub(r'"publicKey"', '"u64"', 'width')
        sub(r'"name": "(\w)(\w+)"', r'"name": "x\2"', 'name')
    return out
FILES = sys.argv[1:] or sorted(os.path.relpath(p, REPO) for pat in ('clients/rust/src/generated/**/*.rs', 'clients/js/src/**/*.ts', 'idls/*.json') for p in glob.glob(f'{REPO}/{pat}', recursive=True))
all_ = [m for f in FILES for m in mutants(f)]
if os.environ.get('LIST'):
    from collections import Counter
    print(Counter(m[0] for m in all_)); print(len(all_)); sys.exit()
os.makedirs(W, exist_ok=True)
done_f = W + '/done.json'
done = json.load(open(done_f)) if os.path.exists(done_f) else {}
todo = queue.Queue()
for m in all_:
    if f'{m[0]}:{m[1]}:{m[2]}' not in done: todo.put(m)
lock = threading.Lock()
def sh(cmd, cwd, t, env=None):
    e = dict(os.environ); e.pop('RUSTUP_TOOLCHAIN', None); e['CARGO_NET_OFFLINE'] = 'true'; e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        return 124, ''
def work(k):
    d = f'{W}/{k}'
    if not os.path.exists(d + '/repo'):
        os.makedirs(d + '/verif', exist_ok=True)
        subprocess.run(['cp', '-a', REPO, d + '/repo']); subprocess.run(['rm', '-rf', d + '/repo/target'])
    subprocess.run(['rm', '-rf', d + '/verif/harness']); subprocess.run(['cp', '-a', '/verif/harness', d + '/verif/'])
    subprocess.run(['git', 'checkout', '-q', '-f', '.'], cwd=d + '/repo')
    build = lambda: sh(f'nice cargo build -q --release --offline --features clients --target-dir {d}/target', d + '/verif/harness', 600)
    build()
    while True:
        try: f, line, what, text = todo.get_nowait()
        except queue.Empty: return
        p = f'{d}/repo/{f}'
        orig = open(p).read()
        open(p, 'w').write(text)
        res = 'survived'
        c = 0
        if not f.endswith('.ts'): c, o = build()
        if c != 0: res = 'does not build'
        else:
            for prop in (['P22'] if f.endswith('.ts') else ['P17'] if f.endswith('.rs') else ['P17', 'P22']):
                c, o = sh(f'nice {d}/target/release/vh check {prop}', d, 240, {'VH_ROOT': d + '/verif', 'VH_NOSHRINK': '1', 'VH_CASES': os.environ.get('CASES', '150')})
                if c != 0:
                    res = f'{prop}' if c == 1 else f'{prop} exit {c}'
                    break
        open(p, 'w').write(orig)
        with lock:
            done[f'{f}:{line}:{what}'] = res
            json.dump(done, open(done_f, 'w'), indent=1)
            print(f'{res:15} {f}:{line} {what}', flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('N', 3)))]
[t.start() for t in ts]; [t.join() for t in ts]
