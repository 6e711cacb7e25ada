#!/usr/bin/env python3
"""mut.py [files..]: mechanical mutants of the program, each built and put to all checks (with few
cases); prints those no check objects to. Works in /tmp/mut. N=workers, CASES=per check."""
import os, re, subprocess, sys, threading, queue, shutil, json
REPO, W = '/repo', '/tmp/mut'
SRC = 'programs/rewards/src/'
FILES = sys.argv[1:] or ['asserts.rs', 'utils.rs', 'entrypoint.rs', 'instruction.rs', 'state/mod.rs', 'state/mining.rs', 'state/reward_pool.rs'] + \
    ['instructions/' + f for f in 'mod.rs change_delegate.rs claim.rs close_mining.rs deposit_mining.rs distribute_rewards.rs extend_stake.rs fill_vault.rs initialize_mining.rs initialize_pool.rs withdraw_mining.rs penalties/decrease_rewards.rs penalties/slash.rs'.split()]
ORDER = 'P18 P11 P10 P16 P02 P05 P06 P07 P13 P14 P15 P09 P08 P12 P19 P20 P01 P03 P04 P21 P23 P17 P22'.split()
CASES = {'P10': 300, 'P11': 150, 'P18': 150, 'P20': 300, 'P22': 200, 'P17': 600, 'P23': 3000}

def body(text):
    # up to the tests, without comments
    m = re.search(r'^(#\[cfg\(test\)\]\s*)?(#\[allow\(unused_imports\)\]\s*)?mod tests? \{', text, re.M)
    return text[:m.start()] if m else text

def mutants(f):
    text = open(f'{REPO}/{SRC}{f}').read()
    b = body(text)
    out = []
    def add(i, j, new, what):
        line = b.count('\n', 0, i) + 1
        ls = b.rfind('\n', 0, i) + 1
        l = b[ls:b.find('\n', i)]
        if l.strip().startswith('//') or l.strip().startswith('use ') or 'msg!' in l or l.strip().startswith('#['):
            return
        out.append((f, line, what, text[:i] + new + text[j:]))
    def sub(pat, new, what):
        for m in re.finditer(pat, b):
            r = m.expand(new)
            add(m.start(), m.end(), r, f'{what}: {m.group(0).strip()[:60]!r} -> {r.strip()[:60]!r}')
    sub(r' >= ', ' > ', 'cmp'); sub(r' <= ', ' < ', 'cmp')
    sub(r'(?<![-=]) > (?=[\w&*])', ' >= ', 'cmp'); sub(r' < (?=[\w&*])', ' <= ', 'cmp')
    sub(r' == ', ' != ', 'cmp'); sub(r' != ', ' == ', 'cmp')
    sub(r' && ', ' || ', 'bool'); sub(r' \|\| ', ' && ', 'bool')
    sub(r' \+ (?=\w)', ' - ', 'arith'); sub(r' - (?=[\w(])', ' + ', 'arith')
    sub(r'\.safe_add\(', '.safe_sub(', 'arith'); sub(r'\.safe_sub\(', '.safe_add(', 'arith')
    sub(r'\.safe_mul\(', '.safe_div(', 'arith')
    for m in re.finditer(r'\.safe_(add|sub|mul)\(((?:[^()]|\((?:[^()]|\([^()]*\))*\))*)\)\?', b):
        op, arg = m.group(1), m.group(2)
        add(m.start(), m.end(), f'.wrapping_{op}({arg})', f'wrap: {m.group(0)[:60]!r}')
        add(m.start(), m.end(), f'.saturating_{op}({arg})', f'saturate: {m.group(0)[:60]!r}')
    sub(r'next_signer\(', 'next_unchecked(', 'account')
    sub(r'next_with_owner\((\w+), [^)]*?\)?\)\?', r'next_unchecked(\1)?', 'account')
    sub(r'next_with_key\((\w+), [^)]*?\)?\)\?', r'next_unchecked(\1)?', 'account')
    sub(r'next_uninitialized\(', 'next_unchecked(', 'account')
    sub(r'AccountMeta::new\(', 'AccountMeta::new_readonly(', 'meta')
    sub(r'AccountMeta::new_readonly\((.*), false\)', r'AccountMeta::new_readonly(\1, true)', 'meta')
    sub(r'AccountMeta::new(\w*)\((.*), true\)', r'AccountMeta::new\1(\2, false)', 'meta')
    # numbers
    for m in re.finditer(r'(?<![\w.])(\d[\d_]*)(?![\w.])', b):
        n = int(m.group(1).replace('_', ''))
        add(m.start(), m.end(), str(n + 1), f'number {n} -> {n + 1}')
        if n > 0: add(m.start(), m.end(), str(n - 1), f'number {n} -> {n - 1}')
    # whole statements left out: those ending in ?; or ; that are calls or assignments
    for m in re.finditer(r'(?m)^( +)((?:\*?[a-z_][\w.]*(?:::\w+)*(?:\s*=\s|\s*\()|\*\*)(?:[^;{}]|\{[^{}]*\})*?;)\n', b):
        s = m.group(2)
        if s.startswith(('let ', 'return', 'msg')): continue
        add(m.start(2), m.end(2), '', f'left out: {" ".join(s.split())[:90]!r}')
    # conditions
    for m in re.finditer(r'if (?!let )([^{}]+?) \{', b):
        for v in ('true', 'false'):
            add(m.start(1), m.end(1), v, f'if {" ".join(m.group(1).split())[:60]!r} -> {v}')
    for m in re.finditer(r'(Some\(\w+\)) => ', b):
        pass
    return out

def sh(cmd, cwd, t, env=None):
    e = dict(os.environ); e.pop('RUSTUP_TOOLCHAIN', None); e['CARGO_NET_OFFLINE'] = 'true'; e.update(env or {})
    try:
        p = subprocess.run(cmd, shell=True, cwd=cwd, env=e, timeout=t, stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, errors='replace', start_new_session=True)
        return p.returncode, p.stdout
    except subprocess.TimeoutExpired:
        subprocess.run('pkill -9 -f "' + cwd + '/.*vh check"', shell=True)
        return 124, ''

todo = queue.Queue()
all_ = [m for f in FILES for m in mutants(f)]
if os.environ.get('LIST'):
    for m in all_: print(*m[:3])
    print(len(all_)); sys.exit()
done_f = W + '/done.json'
os.makedirs(W, exist_ok=True)
done = json.load(open(done_f)) if os.path.exists(done_f) else {}
for m in all_:
    if f'{m[0]}:{m[1]}:{m[2]}' not in done: todo.put(m)
lock = threading.Lock()
def work(k):
    d = f'{W}/{k}'
    if not os.path.exists(d + '/repo'):
        os.makedirs(d + '/verif', exist_ok=True)
        subprocess.run(['cp', '-a', REPO, d + '/repo'])
        subprocess.run(['rm', '-rf', d + '/repo/target'])
    subprocess.run(['rm', '-rf', d + '/verif/harness']); subprocess.run(['cp', '-a', '/verif/harness', d + '/verif/'])
    subprocess.run(['git', 'checkout', '-q', '-f', '.'], cwd=d + '/repo')
    while True:
        try: f, line, what, text = todo.get_nowait()
        except queue.Empty: return
        p = f'{d}/repo/{SRC}{f}'
        orig = open(p).read()
        open(p, 'w').write(text)
        c, o = sh(f'nice cargo build -q --release --offline --features clients --target-dir {d}/target', d + '/verif/harness', 400)
        res = 'survived'
        if c != 0: res = 'does not build'
        else:
            for prop in ORDER:
                c, o = sh(f'nice {d}/target/release/vh check {prop}', d, 240, {'VH_ROOT': d + '/verif', 'VH_NOSHRINK': '1', 'VH_CASES': str(int(CASES.get(prop, 1500) * float(os.environ.get('SCALE', 1))))})
                if c != 0:
                    res = f'{prop}' if c == 1 else f'{prop} exit {c}'
                    break
        open(p, 'w').write(orig)
        with lock:
            done[f'{f}:{line}:{what}'] = res
            json.dump(done, open(done_f, 'w'), indent=1)
            print(f'{res:15} {f}:{line} {what}', flush=True)
ts = [threading.Thread(target=work, args=(k,)) for k in range(int(os.environ.get('N', 3)))]
[t.start() for t in ts]; [t.join() for t in ts]
