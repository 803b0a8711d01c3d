#!/usr/bin/env python3
"""Development aid: mutate one source file again and again and see which mutants no check notices (no check uses it).

  mutate.py FILE C01,C02[:runs] [--n 60] [--seed 0] [--jobs 8] [--lines 10-200] [--only TEXT]

Each mutant lives in a copy of /repo mounted over /repo in a private mount namespace, so the real tree is never touched.
Survivors are printed as diffs.
"""
import ast
import difflib
import os
import random
import re
import shutil
import signal
import subprocess
import sys
import threading
import time

W = '/tmp/mut'
SRC_REPO = os.environ.get('MUT_REPO', '/repo')


def py_mutants(src):
    """(start, end, new text) by character offsets."""
    tree = ast.parse(src)
    lines = src.splitlines(keepends=True)
    off = [0]
    for x in lines:
        off.append(off[-1] + len(x))

    def pos(l, c):
        return off[l - 1] + len(lines[l - 1].encode()[:c].decode())

    def span(n):
        return pos(n.lineno, n.col_offset), pos(n.end_lineno, n.end_col_offset)
    out = []
    docs = set()
    for n in ast.walk(tree):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef, ast.Module)) and n.body and isinstance(n.body[0], ast.Expr) \
                and isinstance(n.body[0].value, ast.Constant):
            docs.add(n.body[0])
    cmp = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==', ast.Is: 'is not',
           ast.IsNot: 'is', ast.In: 'not in', ast.NotIn: 'in'}
    infn = set()
    for f in ast.walk(tree):
        if isinstance(f, ast.FunctionDef):
            for b in f.body:
                for n in ast.walk(b):
                    infn.add(n)
    for n in ast.walk(tree):
        if n not in infn or n in docs:
            continue
        if isinstance(n, ast.Compare) and len(n.ops) == 1:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            if '#' not in src[a:b] and '(' not in src[a:b] and ')' not in src[a:b]:
                out.append((a, b, f' {cmp[type(n.ops[0])]} '))
        elif isinstance(n, ast.BoolOp):
            a, b = span(n.values[0])[1], span(n.values[1])[0]
            t = src[a:b]
            w = ('and', 'or') if isinstance(n.op, ast.And) else ('or', 'and')
            if w[0] in t:
                out.append((a, b, t.replace(*w)))
            for v in n.values:
                out.append(span(v) + ('True' if isinstance(n.op, ast.And) else 'False',))
        elif isinstance(n, ast.BinOp) and isinstance(n.op, (ast.Add, ast.Sub)):
            a, b = span(n.left)[1], span(n.right)[0]
            t = src[a:b]
            w = ('+', '-') if isinstance(n.op, ast.Add) else ('-', '+')
            out.append((a, b, t.replace(*w)))
        elif isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            out.append(span(n) + (src[slice(*span(n.operand))],))
        elif isinstance(n, ast.Constant):
            if n.value is True or n.value is False:
                out.append(span(n) + (str(not n.value),))
            elif isinstance(n.value, int):
                out.append(span(n) + (str(n.value + 1),))
            elif isinstance(n.value, float) and n.value not in (float('inf'),):
                out.append(span(n) + (repr(n.value + 1),))
        elif isinstance(n, (ast.If, ast.While)):
            out.append(span(n.test) + ('True' if isinstance(n, ast.If) else 'False',))
            out.append(span(n.test) + ('False',))
        elif isinstance(n, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete, ast.Continue, ast.Break, ast.Raise)):
            if isinstance(n, ast.Expr) and isinstance(n.value, ast.Call):
                f = src[slice(*span(n.value.func))]
                if f == 'print' or 'logg' in f:
                    continue
            if isinstance(n, ast.Assign) and isinstance(n.targets[0], ast.Name):
                continue
            out.append(span(n) + ('pass',))
        elif isinstance(n, ast.Return) and n.value is not None:
            pass
        elif isinstance(n, ast.Call):
            f = src[slice(*span(n.func))]
            m = {'min': 'max', 'max': 'min', 'any': 'all', 'all': 'any', 'deepcopy': '', 'copy.deepcopy': '', 'list': '', 'set': '',
                 'sorted': 'list', 'reversed': 'list', 'dict': ''}
            if f in m and (m[f] or len(n.args) == 1):
                out.append(span(n.func) + (m[f],))
            if f.endswith('.copy') and not n.args:
                out.append(span(n) + (f[:-5],))
            if len(n.args) == 2 and not n.keywords and f not in ('isinstance', 'getattr', 'setattr', 'hasattr', 'print'):
                a, b = span(n.args[0]), span(n.args[1])
                out.append((a[0], b[1], src[slice(*b)] + src[a[1]:b[0]] + src[slice(*a)]))
        elif isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp, ast.DictComp)):
            for g in n.generators:
                for i in g.ifs:
                    out.append(span(i) + ('True',))
        elif isinstance(n, ast.Try):
            pass
        elif isinstance(n, ast.IfExp):
            out.append(span(n.test) + ('True',))
            out.append(span(n.test) + ('False',))
    res = []
    for a, b, t in out:
        if src[a:b] == t:
            continue
        m = src[:a] + t + src[b:]
        try:
            ast.parse(m)
        except SyntaxError:
            continue
        res.append((a, b, t))
    return res


def cc_mutants(src):
    out = []
    swaps = [(r'(?<![<\-=>])<(?![<=])(?= )', '<='), (r' <= ', ' < '), (r' > (?!=)', ' >= '), (r' >= ', ' > '), (r' == ', ' != '), (r' != ', ' == '),
             (r' && ', ' || '), (r' \|\| ', ' && '), (r'(?<=\()!\(?', None), (r' \+ ', ' - '), (r' - ', ' + '), (r'\+\+', '--'),
             (r'std::min\b', 'std::max'), (r'std::max\b', 'std::min'), (r'\btrue\b', 'false'), (r'\bfalse\b', 'true'), (r' \+= ', ' = '),
             (r'\b0\b', '1'), (r'\b1\b', '2'), (r'\.insert\(', '.count('), (r'\bbreak;', ';'), (r'\bcontinue;', ';'), (r'insert\(([a-z_]+)\)', None)]
    p = 0
    for line in src.splitlines(keepends=True):
        code = line.split('//')[0]
        if 'spdlog' in line or 'debug' in line or line.strip().startswith(('#', '*', '/*', 'typedef', 'template', 'using')) or 'StringConverter' in line \
                or 'print_thread' in line or '.print()' in line or 'duration' in line:
            p += len(line)
            continue
        for r, t in swaps:
            if t is None:
                continue
            for m in re.finditer(r, code):
                if r.startswith('(?<![<') and ('template' in line or 'std::' in code[max(0, m.start() - 20):m.start() + 1]):
                    continue
                out.append((p + m.start(), p + m.end(), t))
        s = code.strip()
        if re.match(r'^[\w\->\.\*\(\)\[\]:<>, &+=!\'"]+;$', s) and not re.match(r'^(return|throw|auto|const|double|int|bool|std::\w+<|typename|typedef|using|struct|class|break|continue|\}|friend|mutable|explicit)', s) \
                and re.search(r'(=|\()', s) and s.count('(') == s.count(')'):
            a = p + len(code) - len(code.lstrip())
            out.append((a, a + len(s), ';'))
        m = re.search(r'\bif ?\((.*)\) \{$', s)
        if m and m.group(1).count('(') == m.group(1).count(')'):
            a = p + line.index(m.group(1))
            out.append((a, a + len(m.group(1)), 'true'))
            out.append((a, a + len(m.group(1)), 'false'))
        p += len(line)
    return out


def main():
    f = sys.argv[1]
    props = sys.argv[2].split(',')
    opt = dict(zip(sys.argv[3::2], sys.argv[4::2]))
    jobs = int(opt.get('--jobs', 8))
    src = open(f'{SRC_REPO}/{f}', newline='').read()
    muts = py_mutants(src) if f.endswith('.py') else cc_mutants(src)
    if '--lines' in opt:
        lo, hi = map(int, opt['--lines'].split('-'))
        muts = [m for m in muts if lo <= src.count('\n', 0, m[0]) + 1 <= hi]
    random.Random(int(opt.get('--seed', 0))).shuffle(muts)
    n = int(opt.get('--n', 60))
    print(f'{f}: {len(muts)} mutants, {min(n, len(muts))} tried', flush=True)
    muts = muts[:n]
    todo = list(enumerate(muts))
    lock = threading.Lock()
    stat = {'killed': 0, 'survived': 0}

    def setup(w):
        d = f'{W}/{w}'
        os.makedirs(d, exist_ok=True)
        subprocess.run(['rsync', '-a', '--delete', '--exclude', '.git', SRC_REPO + '/', d + '/repo/'], check=True) if shutil.which('rsync') else \
            (shutil.rmtree(d + '/repo', True), subprocess.run(f'mkdir -p {d}/repo && cd {SRC_REPO} && tar cf - --exclude=.git . | tar xf - -C {d}/repo', shell=True, check=True))
        shutil.rmtree(d + '/verif', True)
        subprocess.run(f'mkdir -p {d}/verif && cd /verif && tar cf - --exclude=.git --exclude=seeded --exclude=replays . | tar xf - -C {d}/verif', shell=True, check=True)
        return d

    def run(d, prop, log):
        p, _, r = prop.partition(':')
        cmd = f'mount --bind {d}/repo /repo && mount --bind {d}/verif /verif && cd /verif && exec ./check.sh {p} --jobs 1' + (f' --runs {r}' if r else '')
        q = subprocess.Popen(['unshare', '-m', 'bash', '-c', cmd], stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True,
                             errors='replace', start_new_session=True)
        t = threading.Timer(float(opt.get('--timeout', 240)), lambda: os.killpg(q.pid, signal.SIGKILL))
        t.start()
        why, out = None, []
        for line in q.stdout:
            out.append(line)
            if re.match(r'(run \d+: |VIOLATION)', line):
                why = line.strip()
                break
        try:
            os.killpg(q.pid, signal.SIGKILL) if why else None
        except ProcessLookupError:
            pass
        rc = q.wait()
        t.cancel()
        if why is None and rc:
            why = f'exit {rc}: ' + ''.join(out)[-300:]
        return why

    def work(w):
        d = setup(w)
        while True:
            with lock:
                if not todo:
                    return
                k, (a, b, t) = todo.pop(0)
            m = src[:a] + t + src[b:]
            with open(f'{d}/repo/{f}', 'w', newline='') as g:
                g.write(m)
            why = None
            t0 = time.time()
            for p in props:
                why = run(d, p, None)
                if why:
                    break
            with open(f'{d}/repo/{f}', 'w', newline='') as g:
                g.write(src)
            with lock:
                stat['killed' if why else 'survived'] += 1
                if why is None or why.startswith('exit') and 'exit -9' not in why:
                    l = src.count('\n', 0, a) + 1
                    diff = [x for x in difflib.unified_diff(src.replace('\r', '').splitlines(), m.replace('\r', '').splitlines(), lineterm='', n=1)][2:]
                    print(f'--- {"SURVIVOR" if why is None else why[:200]} #{k} line {l} ({time.time() - t0:.0f}s)\n' + '\n'.join(diff), flush=True)
                elif '-v' in sys.argv:
                    print(f'killed #{k} {why[:100]}', flush=True)
    ts = [threading.Thread(target=work, args=(w,)) for w in range(jobs)]
    [t.start() for t in ts]
    [t.join() for t in ts]
    print(stat, flush=True)


main()
