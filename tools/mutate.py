"""mutation campaign: python3 tools/mutate.py list | run [--jobs N] [--frac F] [--files a.py,b.py] [--seed S] OUT.jsonl
mutants are made in scratch copies under /tmp; run it from a copy of /verif. Survivors are read by hand (equivalent, out of scope, or a hole)."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('DGA_REPO_SRC', '/repo')
PROPS = {
    'matsubara_frequencies.py': 'C01 C02 C23',
    'brillouin_zone.py': 'C03 C04 C24 C23',
    'wannier.py': 'C05 C06 C23',
    'two_point.py': 'C07 C08 C24 C23',
    'bubble.py': 'C09 C23',
    'local_four_point.py': 'C10 C11 C12 C21 C23',
    'four_point.py': 'C13 C16 C23',
    'lambda_correction.py': 'C14 C23',
    'pairing_vertex.py': 'C15 C16 C02 C23',
    'eliashberg_equation.py': 'C17 C23',
    'mpi_aux.py': 'C18 C23',
    'optics.py': 'C19 C16 C23 C24',
    'analytic_continuation.py': 'C20 C24',
    'pade_aux.py': 'C20',
    'w2dyn_aux_dga.py': 'C21', 'symmetrize.py': 'C21',
    'dga_io.py': 'C21 C22 C23 C24',
    'config.py': 'C22 C23 C24',
    'util.py': 'C22', 'loggers.py': 'C22',
    'dga_main.py': 'C23', 'dga_max_ent.py': 'C24',
    'ornstein_zernicke_function.py': 'C24',
}
NAMES = [('dens', 'magn'), ('k_grid', 'q_grid'), ('niw_core', 'niv_core'), ('niv_core', 'niv_full'), ('niv_full', 'niv_core'), ('kx', 'ky'), ('ky', 'kz'), ('nk', 'nq'), ('real', 'imag'), ('smom0', 'smom1'),
         ('niv_asympt', 'niv_full'), ('irrk_ind', 'irrk_inv'), ('irrk_count', 'irrk_ind'), ('irrk_inv', 'irrk_ind'), ('nk_irr', 'nk_tot'), ('nk_tot', 'nk_irr'), ('mu', 'n'), ('wmin', 'wmax'), ('rank', 'size'), ('niv_shell', 'niv_core')]


def seg(src_lines, node):
    return (node.lineno - 1, node.col_offset, node.end_lineno - 1, node.end_col_offset)


class Finder(ast.NodeVisitor):
    def __init__(self):
        self.out, self.stack = [], []

    def add(self, node, new, what):
        try:
            text = new if isinstance(new, str) else ast.unparse(new)
        except Exception:
            return
        if not isinstance(new, str) and isinstance(node, (ast.BinOp, ast.Compare, ast.BoolOp, ast.UnaryOp)):
            text = '(' + text + ')'
        self.out.append((seg(None, node), text, what, '.'.join(self.stack)))

    def visit_FunctionDef(self, n):
        if n.name.startswith(('plot', '__repr', 'itemsize', 'print', 'log_')) or 'plot' in n.name:
            return
        self.stack.append(n.name)
        body = n.body[1:] if n.body and isinstance(n.body[0], ast.Expr) and isinstance(n.body[0].value, ast.Constant) else n.body
        for d in n.args.defaults:
            if isinstance(d, ast.Constant) and isinstance(d.value, (int, bool)):
                self.visit(d)
        for b in body:
            self.visit(b)
        self.stack.pop()

    def visit_ClassDef(self, n):
        self.stack.append(n.name)
        self.generic_visit(n)
        self.stack.pop()

    def visit_If(self, n):
        if ast.unparse(n.test).startswith(('__name__', 'verbose', 'logger', 'do_plot')):
            return
        self.add(n.test, f'(not ({ast.unparse(n.test)}))', 'negated if')
        self.generic_visit(n)

    def visit_Assert(self, n):
        pass

    def visit_Raise(self, n):
        pass

    def visit_JoinedStr(self, n):
        pass

    def visit_Expr(self, n):
        s = ast.unparse(n)
        if isinstance(n.value, ast.Constant) or any(x in s for x in ('plot', 'log', 'print', 'warn', 'hlp.', 'plt.', 'savefig', 'title', 'colorbar')):
            return
        self.add(n, 'pass', 'statement removed')
        self.generic_visit(n)

    def visit_AugAssign(self, n):
        self.add(n, 'pass', 'statement removed')
        self.add(n, f'{ast.unparse(n.target)} = {ast.unparse(n.value)}', 'augmented -> plain')
        self.generic_visit(n)

    def visit_BinOp(self, n):
        swap = {ast.Add: ast.Sub, ast.Sub: ast.Add, ast.Mult: ast.Div, ast.Div: ast.Mult, ast.FloorDiv: ast.Mult, ast.Mod: ast.FloorDiv, ast.Pow: ast.Mult, ast.MatMult: None}
        o = swap.get(type(n.op))
        if o and not (isinstance(n.left, (ast.Constant, ast.JoinedStr)) and isinstance(getattr(n.left, 'value', None), str)) and not isinstance(n.right, ast.JoinedStr) \
                and not (isinstance(n.right, ast.Constant) and isinstance(n.right.value, str)):
            self.add(n, ast.BinOp(n.left, o(), n.right), f'{type(n.op).__name__}->{o.__name__}')
        self.generic_visit(n)

    def visit_Compare(self, n):
        swap = {ast.Lt: ast.LtE, ast.LtE: ast.Lt, ast.Gt: ast.GtE, ast.GtE: ast.Gt, ast.Eq: ast.NotEq, ast.NotEq: ast.Eq}
        o = swap.get(type(n.ops[0]))
        if o:
            self.add(n, ast.Compare(n.left, [o()] + n.ops[1:], n.comparators), 'comparison')
        self.generic_visit(n)

    def visit_BoolOp(self, n):
        self.add(n, ast.BoolOp(ast.Or() if isinstance(n.op, ast.And) else ast.And(), n.values), 'and/or')
        self.generic_visit(n)

    def visit_UnaryOp(self, n):
        if isinstance(n.op, (ast.USub, ast.Not)):
            self.add(n, n.operand, 'unary removed')
        self.generic_visit(n)

    def visit_Constant(self, n):
        if isinstance(n.value, bool):
            self.add(n, repr(not n.value), 'flag')
        elif isinstance(n.value, (int, float)) and not isinstance(n.value, bool):
            self.add(n, repr(n.value + 1), 'constant +1')
            if n.value not in (0,):
                self.add(n, repr(n.value - 1), 'constant -1')
        elif n.value in ('dens', 'magn', 'plus', 'minus'):
            self.add(n, repr({'dens': 'magn', 'magn': 'dens', 'plus': 'minus', 'minus': 'plus'}[n.value]), 'string')

    def visit_Call(self, n):
        f = ast.unparse(n.func)
        if any(x in f for x in ('plot', 'logger', 'print', 'warn', 'hlp.', 'plt.', 'log_', 'savefig')):
            return
        if f in ('np.conj', 'np.abs', 'np.real', 'np.flip', 'np.sort', 'np.copy', 'int', 'np.transpose') and n.args:
            self.add(n, n.args[0], f'{f} removed')
        for a, b in (('np.mean', 'np.sum'), ('np.sum', 'np.mean'), ('np.min', 'np.max'), ('np.max', 'np.min'), ('min', 'max'), ('max', 'min'), ('np.sin', 'np.cos'), ('np.cos', 'np.sin'), ('np.zeros', 'np.ones'),
                     ('np.argmin', 'np.argmax')):
            if f == a:
                self.add(n, ast.Call(ast.parse(b).body[0].value, n.args, n.keywords), f'{a}->{b}')
        if len(n.args) >= 2 and not f.startswith('np.') and f not in ('range', 'open', 'slice', 'isinstance', 'getattr', 'setattr', 'hasattr', 'map', 'zip'):
            self.add(n, ast.Call(n.func, [n.args[1], n.args[0]] + n.args[2:], n.keywords), 'arguments swapped')
        for i, k in enumerate(n.keywords):
            if k.arg is not None and k.arg not in ('name', 'pdir', 'task', 'figsize', 'allow_pickle', 'label'):
                self.add(n, ast.Call(n.func, n.args, n.keywords[:i] + n.keywords[i + 1:]), f'keyword {k.arg} dropped')
        self.generic_visit(n)

    def visit_Attribute(self, n):
        for a, b in NAMES:
            if n.attr == a and isinstance(n.ctx, ast.Load):
                self.add(n, ast.Attribute(n.value, b, n.ctx), f'.{a}->.{b}')
        self.generic_visit(n)


def mutants(fname):
    src = open(f'{REPO}/src/dga/{fname}', encoding='utf-8').read()
    fd = Finder()
    for node in ast.parse(src).body:
        if isinstance(node, ast.If) and '__name__' in ast.unparse(node.test):
            continue
        fd.visit(node)
    # columns are in utf-8 bytes
    lines = src.encode().splitlines(keepends=True)
    out = []
    for (l0, c0, l1, c1), text, what, where in fd.out:
        head, tail = lines[l0][:c0], lines[l1][c1:]
        new = b''.join(lines[:l0]) + head + text.encode() + tail + b''.join(lines[l1 + 1:])
        try:
            ast.parse(new)
        except SyntaxError:
            continue
        old = (lines[l0][c0:] if l0 != l1 else lines[l0][c0:c1]).decode().strip()
        out.append(dict(file=fname, line=l0 + 1, where=where, what=what, old=old[:100], new=text[:100], src=new))
    return out


def run_one(m, slot_queue, scale, jobs):
    slot = slot_queue.pop()
    try:
        base = f'/tmp/mut/{slot}'
        target = f'{base}/src/dga/{m["file"]}'
        with open(target, 'wb') as f:
            f.write(m['src'])
        env = dict(os.environ, DGA_REPO=base, VPBT_SCALE=str(scale), VPBT_JOBS=str(jobs), VERIF_SEED='1')
        m['killed'] = None
        m['rc'] = {}
        for p in PROPS[m['file']].split():
            vd = f'/tmp/mut/v{slot}'
            try:
                r = subprocess.run([f'{vd}/run.sh', p, 'quick'], env=env, capture_output=True, text=True, timeout=800, start_new_session=True)
                rc, tail = r.returncode, r.stdout[-400:] + r.stderr[-200:]
            except subprocess.TimeoutExpired:
                rc, tail = 'timeout', ''
                subprocess.run(['pkill', '-f', f'/tmp/mut/v{slot}/'])
            m['rc'][p] = rc
            if rc != 0:
                m['killed'] = p if rc == 1 else f'{p}:{rc}'
                if rc != 1:
                    m['tail'] = tail
                break
        shutil.copy(f'{REPO}/src/dga/{m["file"]}', target)
    finally:
        slot_queue.append(slot)
    return m


def main():
    a = sys.argv[1:]

    def opt(n, d):
        if n in a:
            i = a.index(n)
            v = a[i + 1]
            del a[i:i + 2]
            return v
        return d
    jobs, frac, files, seed, scale = int(opt('--jobs', 4)), float(opt('--frac', 1)), opt('--files', ','.join(PROPS)), int(opt('--seed', 0)), float(opt('--scale', 0.5))
    sel = []
    for f in files.split(','):
        ms = mutants(f)
        random.Random(seed).shuffle(ms)
        sel += ms[:max(1, int(len(ms) * frac))]
    if a[0] == 'list':
        for f in files.split(','):
            print(f, len(mutants(f)))
        return
    random.Random(seed).shuffle(sel)
    slots = []
    for s in range(jobs):
        shutil.rmtree(f'/tmp/mut/{s}', ignore_errors=True)
        shutil.rmtree(f'/tmp/mut/v{s}', ignore_errors=True)
        shutil.copytree(REPO, f'/tmp/mut/{s}', ignore=shutil.ignore_patterns('.git', 'test*', '*.pyc'))
        shutil.copytree(HERE, f'/tmp/mut/v{s}', ignore=shutil.ignore_patterns('.git', 'evidence', 'seeded', '__pycache__', '.hypothesis'))
        os.makedirs(f'/tmp/mut/v{s}/evidence', exist_ok=True)
        slots.append(s)
    with ThreadPoolExecutor(jobs) as ex, open(a[1], 'a', encoding='utf-8') as out:
        for m in ex.map(lambda x: run_one(x, slots, scale, max(1, 8 // jobs)), sel):
            m.pop('src')
            out.write(json.dumps(m) + '\n')
            out.flush()


if __name__ == '__main__':
    main()
