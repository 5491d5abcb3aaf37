"""Random source mutations of /repo, judged by the checks; survivors are listed for triage.

usage: mutate.py OUT.jsonl N SEED [FILE ...]     (run from a copy of /verif; scratch copies of /repo under /tmp)
"""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
import tempfile

V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(V, 'tools'))
import plant
FILES = {   # file: (weight, checks in the order of their likelihood to notice)
    'wilson/wcxf/classes.py': (10, 'C02 C01 C03 C04 C20'),
    'wilson/wcxf/cli.py': (6, 'C20'),
    'wilson/wcxf/converters/eos.py': (3, 'C21 C20'),
    'wilson/wcxf/converters/yamljson.py': (1, 'C01 C20'),
    'wilson/wcxf/converters/dsixtools.py': (6, 'C21 C20'),
    'wilson/wcxf/converters/smeftsim.py': (6, 'C21 C20'),
    'wilson/classes.py': (14, 'C17 C18 C22 C04'),
    'wilson/__init__.py': (1, 'C17'),
    'wilson/parameters.py': (1, 'C18 C17 C10'),
    'wilson/util/common.py': (6, 'C05 C06 C13'),
    'wilson/util/smeft_warsaw.py': (4, 'C06 C05 C14'),
    'wilson/util/wet_jms.py': (6, 'C10 C05 C12 C08'),
    'wilson/util/qcd.py': (5, 'C19 C16'),
    'wilson/translate/__init__.py': (5, 'C08 C07 C09 C04'),
    'wilson/translate/smeft.py': (8, 'C07 C06 C05'),
    'wilson/translate/smeft_higgs.py': (6, 'C07'),
    'wilson/translate/wet.py': (20, 'C08 C09'),
    'wilson/match/__init__.py': (6, 'C12 C10 C04'),
    'wilson/match/smeft.py': (6, 'C10 C11'),
    'wilson/match/smeft_tree.py': (8, 'C10'),
    'wilson/match/smeft_loop.py': (8, 'C11'),
    'wilson/run/smeft/beta.py': (8, 'C13'),
    'wilson/run/smeft/classes.py': (14, 'C14 C15 C22 C07'),
    'wilson/run/smeft/rge.py': (8, 'C14 C22'),
    'wilson/run/smeft/smpar.py': (8, 'C15 C14'),
    'wilson/run/wet/adm.py': (8, 'C16'),
    'wilson/run/wet/classes.py': (6, 'C16 C22'),
    'wilson/run/wet/definitions.py': (1, 'C16'),
    'wilson/run/wet/rge.py': (10, 'C16 C22'),
}


class Sites(ast.NodeVisitor):
    """candidate edits: (first line, column, last line, end column, new text)"""
    def __init__(self, src):
        self.src, self.lines = src, src.split('\n')
        self.out = []
        self.strings = set()
        self.depth = 0
        for n in ast.walk(ast.parse(src)):
            if isinstance(n, ast.Subscript) and isinstance(n.slice, ast.Constant) and isinstance(n.slice.value, str):
                self.strings.add(n.slice.value)
        self.visit(ast.parse(src))

    def text(self, n):
        ls = self.lines[n.lineno - 1:n.end_lineno]
        if len(ls) == 1:
            return ls[0].encode()[n.col_offset:n.end_col_offset].decode()
        return '\n'.join([ls[0].encode()[n.col_offset:].decode()] + ls[1:-1] + [ls[-1].encode()[:n.end_col_offset].decode()])

    def add(self, n, new, kind):
        if new != self.text(n):
            self.out.append((n.lineno, n.col_offset, n.end_lineno, n.end_col_offset, new, kind))

    def visit_FunctionDef(self, n):
        self.depth += 1
        for x in n.body[1:] if isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body:
            self.visit(x)
        self.depth -= 1

    def visit(self, n):
        t = type(n).__name__
        if self.depth or t in ('Module', 'ClassDef', 'FunctionDef', 'Assign', 'Dict', 'List'):
            f = getattr(self, 'm_' + t, None)
            if f and (self.depth or t not in ('Assign',)):
                f(n)
            super().visit(n)

    def m_Compare(self, n):
        if len(n.ops) == 1:
            sw = {'Eq': '!=', 'NotEq': '==', 'Lt': '<=', 'LtE': '<', 'Gt': '>=', 'GtE': '>', 'In': 'not in', 'NotIn': 'in', 'Is': 'is not', 'IsNot': 'is'}
            o = sw[type(n.ops[0]).__name__]
            self.add(n, '(%s %s %s)' % (self.text(n.left), o, self.text(n.comparators[0])), 'compare')

    def m_BinOp(self, n):
        sw = {'Add': '-', 'Sub': '+', 'Mult': '/', 'Div': '*'}
        o = sw.get(type(n.op).__name__)
        if o and not isinstance(n.left, ast.Constant):
            self.add(n, '(%s %s %s)' % (self.text(n.left), o, self.text(n.right)), 'binop')
        if type(n.op).__name__ in ('Add', 'Sub'):
            self.add(n, '(%s)' % self.text(n.left), 'drop term')

    def m_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, '(%s)' % self.text(n.operand), 'drop unary')

    def m_BoolOp(self, n):
        for i in range(len(n.values)):
            self.add(n, '(%s)' % (' and ' if isinstance(n.op, ast.And) else ' or ').join('(%s)' % self.text(v) for j, v in enumerate(n.values) if j != i), 'drop condition')

    def m_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, repr(not n.value), 'bool')
        elif isinstance(n.value, int):
            self.add(n, repr(n.value + 1), 'int')
            if n.value > 0:
                self.add(n, repr(n.value - 1), 'int')
        elif isinstance(n.value, float):
            self.add(n, repr(n.value * 1.03), 'float')

    def m_Subscript(self, n):
        s = n.slice
        if isinstance(s, ast.Constant) and isinstance(s.value, str):
            import difflib
            for k in difflib.get_close_matches(s.value, sorted(self.strings - {s.value}), 2, 0.5):
                self.add(s, repr(k), 'key')
        elif isinstance(s, ast.Tuple) and len(s.elts) >= 2:
            for i in range(len(s.elts) - 1):
                e = [self.text(x) for x in s.elts]
                e[i], e[i + 1] = e[i + 1], e[i]
                if e[i] != e[i + 1]:
                    self.add(s, ', '.join(e), 'swap index')

    def m_Call(self, n):
        f = n.func
        if isinstance(f, ast.Attribute):
            if f.attr in ('conj', 'copy', 'conjugate', 'T') and not n.args:
                self.add(n, self.text(f.value), 'drop ' + f.attr)
            if f.attr in ('conj', 'copy', 'deepcopy', 'conjugate', 'real', 'imag', 'abs', 'sqrt') and len(n.args) == 1:
                self.add(n, '(%s)' % self.text(n.args[0]), 'drop ' + f.attr)
            if f.attr == 'einsum' and isinstance(n.args[0], ast.Constant) and n.args[0].value.count('->') == 1:
                a, b = n.args[0].value.split('->')
                for i in range(len(b) - 1):
                    self.add(n.args[0], repr(a + '->' + b[:i] + b[i + 1] + b[i] + b[i + 2:]), 'einsum')
                p = a.split(',')
                for i, x in enumerate(p):
                    if len(x) == 2:
                        self.add(n.args[0], repr(','.join(p[:i] + [x[::-1]] + p[i + 1:]) + '->' + b), 'einsum')
        elif isinstance(f, ast.Name) and f.id in ('dict', 'deepcopy', 'list', 'float', 'complex', 'set', 'sorted', 'abs', 'sqrt', 'tuple', 'frozenset') and len(n.args) == 1 and not n.keywords:
            self.add(n, '(%s)' % self.text(n.args[0]), 'drop ' + f.id)
        if n.keywords:
            for k in n.keywords:
                t = [self.text(x) for x in n.args] + ['%s=%s' % (x.arg, self.text(x.value)) if x.arg else '**' + self.text(x.value) for x in n.keywords if x is not k]
                self.add(n, '%s(%s)' % (self.text(f), ', '.join(t)), 'drop keyword')
        if len(n.args) >= 2:
            for i in range(len(n.args) - 1):
                t = [self.text(x) for x in n.args]
                t[i], t[i + 1] = t[i + 1], t[i]
                self.add(n, '%s(%s)' % (self.text(f), ', '.join(t + ['%s=%s' % (x.arg, self.text(x.value)) if x.arg else '**' + self.text(x.value) for x in n.keywords])), 'swap arguments')

    def m_Attribute(self, n):
        if n.attr in ('real', 'imag') and isinstance(n.ctx, ast.Load):
            self.add(n, '%s.%s' % (self.text(n.value), 'imag' if n.attr == 'real' else 'real'), 'real/imag')
            self.add(n, self.text(n.value), 'drop ' + n.attr)
        if n.attr == 'T':
            self.add(n, self.text(n.value), 'drop T')

    def m_Name(self, n):
        pass

    def stmt(self, n):
        self.add(n, 'pass', 'drop statement')

    m_Expr = m_Assign = m_AugAssign = m_Raise = m_Continue = m_Break = stmt

    def m_Dict(self, n):
        if len(n.keys) >= 3 and self.depth:
            i = random.randrange(len(n.keys) - 1)
            self.add(n.values[i], self.text(n.values[i + 1]), 'dict value')

    def m_If(self, n):
        self.add(n.test, 'not (%s)' % self.text(n.test), 'negate')
        self.add(n.test, 'True', 'always')
        self.add(n.test, 'False', 'never')

    def m_IfExp(self, n):
        self.add(n, '(%s)' % self.text(n.body), 'first')
        self.add(n, '(%s)' % self.text(n.orelse), 'second')


def apply(src, e):
    b = [x.encode() for x in src.split('\n')]
    l0, c0, l1, c1, new, _ = e
    head, tail = b[l0 - 1][:c0], b[l1 - 1][c1:]
    b[l0 - 1:l1] = (head + new.encode() + tail).split(b'\n')
    return b'\n'.join(b).decode()


def main():
    sys.setrecursionlimit(20000)
    out, n, seed = sys.argv[1], int(sys.argv[2]), int(sys.argv[3])
    files = sys.argv[4:] or sorted(FILES)
    random.seed(seed)
    sites = {}
    for f in files:
        src = open('/repo/' + f).read()
        s = Sites(src).out
        kinds = {}
        for e in s:
            kinds.setdefault(e[-1], []).append(e)
        sites[f] = (src, kinds)
        print(f, len(s), flush=True)
    d, repo = plant.scratch()
    done = 0
    try:
        while done < n:
            f = random.choices(files, [FILES[x][0] for x in files])[0]
            src, kinds = sites[f]
            if not kinds:
                continue
            ks = sorted(kinds)
            k = random.choices(ks, [len(kinds[x]) ** 0.6 for x in ks])[0]
            e = random.choice(kinds[k])
            new = apply(src, e)
            try:
                compile(new, f, 'exec')
            except SyntaxError:
                continue
            p = os.path.join(repo, f)
            open(p, 'w').write(new)
            try:
                rec = {'file': f, 'line': e[0], 'kind': e[-1], 'diff': plant.run(['git', 'diff', '--no-color', '-U0'], repo)[1].split('@@')[-1][:600]}
                try:
                    rc, o = plant.tests(repo)
                except Exception as x:
                    rc = 1
                if rc:
                    rec['result'] = 'tests'
                else:
                    done += 1
                    rec['result'] = 'SURVIVED'
                    for c in FILES[f][1].split():
                        try:
                            rc, o = plant.run(['timeout', '400', os.path.join(V, 'run_check.py'), c, '-v'], V, {'VERIF_REPO': repo, 'VERIF_EVIDENCE': d, 'VERIF_JOBS': os.environ.get('VERIF_JOBS', '3'), 'VERIF_SEED': '1'})
                        except Exception as x:
                            rc, o = 99, repr(x)
                        if rc:
                            rec['result'] = '%s exit %d' % (c, rc)
                            rec['subs'] = [x.split()[0] for x in o.splitlines() if len(x.split()) > 1 and x.split()[1] == 'violation']
                            if rc != 1:
                                rec['out'] = o[-500:]
                            break
                with open(out, 'a') as g:
                    g.write(json.dumps(rec) + '\n')
            finally:
                open(p, 'w').write(src)
    finally:
        shutil.rmtree(d)


if __name__ == '__main__':
    main()
