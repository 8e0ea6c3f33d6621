#!/usr/bin/env python3
"""mutate.py OUT [FILE ...]: systematic small changes of the library (development aid; judges nothing).

Every change is made alone in a scratch copy; those the test suite does not notice are given to the checks listed for the
file, cheapest first, until one reports. OUT/log has a line for each; what nothing noticed is to be looked at by hand.
"""
import ast
import concurrent.futures as cf
import json
import os
import shutil
import subprocess
import sys
import threading
import warnings

REPO = '/repo'
CHECKS = {
    'message.py': 'C36 C06 C37 C05 C35 C31 C04 C01 C03 C12 C08 C02 C07',
    'oauth2/__init__.py': 'C05 C31 C12 C15 C35 C06 C11 C01 C03 C36 C14 C08 C02',
    'oauth2/device_authorization.py': 'C05 C06 C31 C01 C02',
    'oidc/__init__.py': 'C05 C31 C12 C06 C15 C20 C21 C18 C19 C17 C11 C35 C16 C01 C14 C13 C08 C02 C10 C09 C37',
    'oidc/session.py': 'C16 C12 C11 C05 C35 C06 C01 C08 C02',
    'oidc/identity_assurance.py': 'C22 C21 C05 C06 C23 C01 C08 C02 C37',
    'time_util.py': 'C24 C23 C09',
    'context.py': 'C38 C30',
    '__init__.py': 'C31 C12',
    'exception.py': '',
    'storage/__init__.py': '',
    'storage/init.py': 'C38 C32 C30',
    'storage/utils.py': 'C38 C32 C25',
    'storage/abfile.py': 'C25 C38 C28 C27 C26',
    'storage/absqlalchemy.py': 'C29 C38 C34 C33',
    'storage/db_setup.py': 'C29',
    'storage/converter.py': 'C25 C38 C28',
    'storage/extension.py': 'C38 C28 C30',
}
CMP = {ast.Eq: '!=', ast.NotEq: '==', ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}


class Gen(ast.NodeVisitor):
    def __init__(self, text):
        self.text = text
        self.lines = text.splitlines(True)
        self.starts = [0]
        for l in self.lines:
            self.starts.append(self.starts[-1] + len(l.encode()))
        self.raw = text.encode()
        self.out = []
        self.quiet = 0

    def span(self, n):
        return self.starts[n.lineno - 1] + n.col_offset, self.starts[n.end_lineno - 1] + n.end_col_offset

    def src(self, n):
        a, b = self.span(n)
        return self.raw[a:b].decode()

    def put(self, n, new, what):
        a, b = self.span(n)
        self.out.append((n.lineno, a, b, new, what))

    def visit_Compare(self, n):
        if len(n.ops) == 1:
            self.put(n, '(%s %s %s)' % (self.src(n.left), CMP[type(n.ops[0])], self.src(n.comparators[0])), 'cmp')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        op = ' or ' if isinstance(n.op, ast.And) else ' and '
        self.put(n, '(' + op.join('(%s)' % self.src(v) for v in n.values) + ')', 'bool')
        for i in range(len(n.values)):
            rest = [v for j, v in enumerate(n.values) if j != i]
            self.put(n, '(' + (' and ' if op == ' or ' else ' or ').join('(%s)' % self.src(v) for v in rest) + ')', 'drop operand %d' % i)
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, ast.Not):
            self.put(n, '(%s)' % self.src(n.operand), 'not')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        if isinstance(n.op, (ast.Add, ast.Sub)):
            self.put(n, '(%s %s %s)' % (self.src(n.left), '-' if isinstance(n.op, ast.Add) else '+', self.src(n.right)), 'arith')
        self.generic_visit(n)

    def cond(self, n):
        self.put(n.test, 'True', 'cond true')
        self.put(n.test, 'False', 'cond false')
        self.generic_visit(n)
    visit_If = visit_IfExp = cond

    def visit_Constant(self, n):
        if self.quiet:
            return
        if n.value is True or n.value is False:
            self.put(n, str(not n.value), 'const')
        elif isinstance(n.value, int):
            self.put(n, str(n.value + 1), 'const')
        elif isinstance(n.value, str):
            self.put(n, repr(n.value + 'X'), 'const')
        elif n.value is None:
            self.put(n, "''", 'const')

    def visit_JoinedStr(self, n):
        pass

    def visit_Raise(self, n):
        self.put(n, 'pass', 'no raise')

    def visit_Return(self, n):
        if n.value is not None:
            self.put(n, 'return None', 'return')
            if isinstance(n.value, ast.Constant) and n.value.value is True:
                return
        self.generic_visit(n)

    def visit_Expr(self, n):
        if isinstance(n.value, ast.Constant):
            return
        if isinstance(n.value, ast.Call) and 'logger' in self.src(n.value.func):
            return
        self.put(n, 'pass', 'no call')
        self.generic_visit(n)

    def visit_Assign(self, n):
        self.put(n, 'pass', 'no assignment')
        self.generic_visit(n)

    def visit_Delete(self, n):
        self.put(n, 'pass', 'no deletion')

    def visit_Continue(self, n):
        self.put(n, 'pass', 'no continue')
        self.put(n, 'break', 'break')

    def visit_Break(self, n):
        self.put(n, 'pass', 'no break')

    def seq(self, n):
        if isinstance(n.ctx, ast.Load):
            o, c = ('[', ']') if isinstance(n, ast.List) else ('(', ')')
            for i in range(len(n.elts)):
                rest = [self.src(e) for j, e in enumerate(n.elts) if j != i]
                if o == '(' and len(n.elts) == 5:
                    break      # parameter templates
                self.put(n, o + ', '.join(rest) + (',' if o == '(' and len(rest) == 1 else '') + c, 'drop element %d' % i)
        self.generic_visit(n)
    visit_List = visit_Tuple = seq

    def visit_Dict(self, n):
        for i, (k, v) in enumerate(zip(n.keys, n.values)):
            if k is None:
                continue
            rest = ['%s: %s' % (self.src(a), self.src(b)) for j, (a, b) in enumerate(zip(n.keys, n.values)) if j != i and a is not None]
            self.put(n, '{' + ', '.join(rest) + '}', 'drop entry %s' % self.src(k))
        for v in n.values:
            self.visit(v)

    def visit_Name(self, n):
        if isinstance(n.ctx, ast.Load):
            for a, b in (('REQUIRED', 'OPTIONAL'), ('OPTIONAL', 'REQUIRED')):
                if a in n.id and n.id.isupper() and n.id.split('_')[0] in ('SINGLE', a):
                    new = n.id.replace(a, b, 1)
                    if new in self.text:
                        self.put(n, new, 'template')

    def visit_Call(self, n):
        f = self.src(n.func)
        if 'logger' in f or f.split('.')[-1] == 'format':
            return
        for i, k in enumerate(n.keywords):
            args = [self.src(a) for a in n.args] + [('%s=%s' % (x.arg, self.src(x.value)) if x.arg else '**' + self.src(x.value)) for j, x in enumerate(n.keywords) if j != i]
            self.put(n, '%s(%s)' % (f, ', '.join(args)), 'drop keyword %s' % k.arg)
        if isinstance(n.func, ast.Attribute) and n.func.attr in ('copy', 'strip', 'lower', 'upper') and not n.args:
            self.put(n, self.src(n.func.value), 'drop method')
        self.generic_visit(n)

    def visit_FunctionDef(self, n):
        if n.name in ('__str__', '__repr__'):
            return
        for s in n.body:
            self.visit(s)
        for d in n.args.defaults:
            self.visit(d)

    def visit_ClassDef(self, n):
        for s in n.body:
            self.visit(s)

    def visit_Import(self, n):
        pass
    visit_ImportFrom = visit_Import


def mutants(f):
    warnings.simplefilter('ignore')
    text = open(os.path.join(REPO, 'src/oidcmsg', f), encoding='utf-8').read()
    g = Gen(text)
    g.visit(ast.parse(text))
    for i, (line, a, b, new, what) in enumerate(g.out):
        out = (g.raw[:a] + new.encode() + g.raw[b:])
        try:
            compile(out, f, 'exec')
        except SyntaxError:
            continue
        yield i, line, what, g.raw[a:b].decode(), new, out


COV = json.load(open(os.environ['MUT_COV'])) if os.environ.get('MUT_COV') else None   # check -> file -> lines executed
INSIDE = {}


def checks_for(f, line, i):
    mine = CHECKS[f].split()
    if COV is None:
        return mine
    if f not in INSIDE:
        INSIDE[f] = {n for d in ast.walk(ast.parse(open(os.path.join(REPO, 'src/oidcmsg', f), encoding='utf-8').read()))
                     if isinstance(d, (ast.FunctionDef, ast.Lambda)) for n in range(d.lineno, d.end_lineno + 1)}
    if line not in INSIDE[f]:
        return mine
    # a statement over several lines counts with its first line
    hit = [c for c in sorted(COV) if any(n in COV[c].get(f, ()) for n in (line, line - 1, line - 2))]
    return [c for c in mine if c in hit or c in ('C26', 'C27', 'C33', 'C34')] + [c for c in hit if c not in mine and c not in ('C07', 'C09', 'C28', 'C30', 'C25', 'C10', 'C13')]


def main():
    base = sys.argv[1]
    files = sys.argv[2:] or list(CHECKS)
    os.makedirs(base, exist_ok=True)
    log = os.path.join(base, 'log')
    done = {}
    if os.path.exists(log):
        for l in open(log):
            r = json.loads(l)
            done[tuple(r['id'])] = r
    lock = threading.Lock()
    env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0', TZ='UTC')
    local = threading.local()
    count = [0]

    def work(job, phase):
        f, i, line, what, old, new, out = job
        if not hasattr(local, 'dir'):
            with lock:
                count[0] += 1
                local.dir = os.path.join(base, 'w%d' % count[0])
            shutil.rmtree(local.dir, ignore_errors=True)
            shutil.copytree(REPO, local.dir, symlinks=True)
        p = os.path.join(local.dir, 'src/oidcmsg', f)
        keep = open(os.path.join(REPO, 'src/oidcmsg', f), 'rb').read()
        r = {'id': [f, i], 'line': line, 'what': what, 'old': old[:100], 'new': new[:100]}
        try:
            with open(p, 'wb') as fp:
                fp.write(out)
            if phase == 'tests':
                shutil.rmtree(os.path.join(local.dir, 'db'), ignore_errors=True)
                try:
                    t = subprocess.run(['/opt/venv/bin/python', '-m', 'pytest', 'tests', '-x', '-q', '-p', 'no:cacheprovider', '--timeout=60'], cwd=local.dir,
                                       env=dict(env, PYTHONPATH=os.path.join(local.dir, 'src')), stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=120)
                    r['result'] = 'survives' if t.returncode == 0 else 'tests'
                except subprocess.TimeoutExpired:
                    r['result'] = 'tests'
            else:
                r['result'] = 'UNNOTICED'
                for c in checks_for(f, line, i):
                    try:
                        t = subprocess.run(['bin/check', c, 'quick'], cwd='/verif', env=dict(env, MC_REPO=local.dir, MC_FIRST='1', MC_WORKERS='2', MC_HANG_S='20'),
                                           stdout=subprocess.PIPE, stderr=subprocess.STDOUT, text=True, timeout=900)
                        rc = t.returncode
                    except subprocess.TimeoutExpired:
                        rc = 'timeout'
                    if rc != 0:
                        r['result'] = 'caught %s' % c if rc == 1 else 'caught? %s rc=%s' % (c, rc)
                        break
        finally:
            with open(p, 'wb') as fp:
                fp.write(keep)
        with lock:
            with open(log, 'a') as fp:
                fp.write(json.dumps(r) + '\n')
        return r

    jobs = [(f, i, line, what, old, new, out) for f in files for i, line, what, old, new, out in mutants(f)]
    todo = [j for j in jobs if (j[0], j[1]) not in done]
    print(len(jobs), 'changes,', len(todo), 'to test', flush=True)
    with cf.ThreadPoolExecutor(8) as ex:
        for r in ex.map(lambda j: work(j, 'tests'), todo):
            done[tuple(r['id'])] = r
    todo, seen = [], {}
    for j in jobs:
        if done[(j[0], j[1])]['result'] == 'survives':
            # a few of different kinds for every line
            k = seen.setdefault((j[0], j[2]), [])
            if len(k) < int(os.environ.get('MUT_PER_LINE', '3')) and j[3].split()[0] not in k:
                k.append(j[3].split()[0])
                todo.append(j)
    print(len(todo), 'survive the tests', flush=True)
    local = threading.local()
    with cf.ThreadPoolExecutor(4) as ex:
        for r in ex.map(lambda j: work(j, 'checks'), todo):
            if not r['result'].startswith('caught C'):
                print(r['id'], r['line'], r['what'], '|', r['old'].replace('\n', ' '), '->', r['new'].replace('\n', ' '), flush=True)


if __name__ == '__main__':
    main()
