"""Automatic mutants: automut.py N SEED [-j J] [file...]

Draws N mutants of the source files at random (operators, conditions, bounds,
statements, return values, keyword arguments, exception lists), keeps those the
stable tests do not notice, and runs the checks of the file on each until one
catches it. Prints one line per mutant."""
import ast
import json
import os
import random
import shutil
import subprocess
import sys
from concurrent.futures import ThreadPoolExecutor

sys.path.insert(0, os.path.dirname(os.path.abspath(__file__)))
import mutants_lib as ml

FILES = {
    'librksv/algorithms.py': 'C15 C19 C02 C03 C01 C05',
    'librksv/cashreg.py': 'C19 C20',
    'librksv/depexport.py': 'C21',
    'librksv/depparser.py': 'C14 C13 C21 C12 C33 C24 C07',
    'librksv/key_store.py': 'C17 C27 C25 C12 C33',
    'librksv/receipt.py': 'C16 C15 C32 C02 C03 C26 C33 C24 C19 C04',
    'librksv/sigsys.py': 'C20 C19',
    'librksv/url_receipt_helpers.py': 'C26 C32',
    'librksv/utils.py': 'C13 C27 C15 C16 C14 C17 C18 C12 C26 C19 C33 C24 C28',
    'librksv/verification_state.py': 'C18 C22 C23 C08 C09 C24 C10 C33',
    'librksv/verify.py': 'C12 C05 C14 C10 C33 C03 C06 C04 C13 C08 C09 C11 C24 C07 C28',
    'librksv/verify_receipt.py': 'C25 C02 C26 C33 C24 C04 C28',
    'convert.py': 'C21', 'cert_extract.py': 'C21', 'merge.py': 'C21', 'split.py': 'C21',
    'demo.py': 'C19', 'key_store.py': 'C27', 'receipt.py': 'C32', 'receipt_host.py': 'C26',
    'verification_state.py': 'C22', 'verify.py': 'C28 C33', 'verify_receipt.py': 'C25 C26 C28 C33',
    'rktool.py': 'C31 C30 C29', 'img_decode.py': 'C30',
}
CMP = {ast.Lt: '<=', ast.LtE: '<', ast.Gt: '>=', ast.GtE: '>', ast.Eq: '!=', ast.NotEq: '==',
    ast.In: 'not in', ast.NotIn: 'in', ast.Is: 'is not', ast.IsNot: 'is'}
BIN = {ast.Add: '-', ast.Sub: '+', ast.Mult: '+', ast.Div: '*', ast.FloorDiv: '*', ast.Mod: '+',
    ast.LShift: '>>', ast.RShift: '<<', ast.BitAnd: '|', ast.BitOr: '&'}


def candidates(src):
    """(line, kind, start, end, replacement) for offsets into src."""
    tree = ast.parse(src)
    lines = src.encode().split(b'\n')
    starts = [0]
    for l in lines:
        starts.append(starts[-1] + len(l) + 1)

    def span(n):
        return (starts[n.lineno - 1] + n.col_offset, starts[n.end_lineno - 1] + n.end_col_offset)
    data = src.encode()

    def text(n):
        a, b = span(n)
        return data[a:b].decode()
    out = []

    def put(n, kind, new):
        a, b = span(n)
        out.append((n.lineno, kind, a, b, new))

    def visit(n, quiet):
        if isinstance(n, ast.Call) and isinstance(n.func, ast.Name) and n.func.id in ('_', 'print'):
            return
        if isinstance(n, ast.ClassDef) and n.name.endswith('Exception'):
            for f in n.body:
                if isinstance(f, ast.FunctionDef):
                    for s in f.body:
                        if isinstance(s, ast.Assign):
                            v = s.value
                            if isinstance(v, ast.Tuple) and len(v.elts) > 1:
                                put(v, 'swap', '(' + ', '.join(text(x) for x in v.elts[::-1]) + ')')
                        for c in ast.walk(s):
                            if isinstance(c, ast.Call) and isinstance(c.func, ast.Attribute) and \
                                    c.func.attr in ('format', '__init__') and len(c.args) > 1:
                                x, y = c.args[0], c.args[1]
                                a, b = span(x)[0], span(y)[1]
                                out.append((c.lineno, 'swapargs', a, b, text(y) + ', ' + text(x)))
            return
        if isinstance(n, ast.Compare) and len(n.ops) == 1 and type(n.ops[0]) in CMP:
            a, b = span(n.left)[1], span(n.comparators[0])[0]
            mid = data[a:b].decode()
            if '(' not in mid and ')' not in mid:
                out.append((n.lineno, 'cmp', a, b, ' ' + CMP[type(n.ops[0])] + ' '))
        if isinstance(n, ast.BoolOp):
            x, y = n.values[0], n.values[1]
            a, b = span(x)[1], span(y)[0]
            mid = data[a:b].decode()
            op = 'and' if isinstance(n.op, ast.And) else 'or'
            new = 'or' if op == 'and' else 'and'
            if mid.count(op) == 1:
                out.append((n.lineno, 'bool', a, b, mid.replace(op, new)))
            put(x, 'dropterm', 'True' if op == 'and' else 'False')
            put(y, 'dropterm', 'True' if op == 'and' else 'False')
        if isinstance(n, ast.UnaryOp) and isinstance(n.op, ast.Not):
            put(n, 'not', '(' + text(n.operand) + ')')
        if isinstance(n, ast.BinOp) and type(n.op) in BIN:
            a, b = span(n.left)[1], span(n.right)[0]
            mid = data[a:b].decode()
            if '(' not in mid and ')' not in mid and not (isinstance(n.left, ast.Constant)
                    and isinstance(n.left.value, str)):
                out.append((n.lineno, 'bin', a, b, ' ' + BIN[type(n.op)] + ' '))
        if isinstance(n, ast.Constant) and type(n.value) is int:
            put(n, 'int', str(n.value + 1))
            if n.value > 0:
                put(n, 'int', str(n.value - 1))
        if isinstance(n, ast.Constant) and type(n.value) is bool:
            put(n, 'flag', str(not n.value))
        if isinstance(n, (ast.If, ast.While, ast.IfExp)):
            put(n.test, 'true', 'True') if not isinstance(n, ast.While) else None
            put(n.test, 'false', 'False')
        if isinstance(n, ast.Return) and n.value is not None and not (
                isinstance(n.value, ast.Constant) and n.value.value is None):
            put(n.value, 'return', 'None')
        if isinstance(n, (ast.Raise, ast.Break, ast.Continue, ast.AugAssign)) or (isinstance(n, ast.Expr)
                and not isinstance(n.value, (ast.Constant, ast.Yield))):
            put(n, 'drop', 'pass')
        if isinstance(n, ast.Continue):
            put(n, 'break', 'break')
        if isinstance(n, ast.Break):
            put(n, 'continue', 'continue')
        if isinstance(n, ast.Call):
            for i, k in enumerate(n.keywords):
                if k.arg and (n.args or i):
                    a = span(k)[0]
                    while data[a:a + 1] != b',':
                        a -= 1
                    out.append((k.value.lineno, 'dropkw', a, span(k)[1], ''))
            if len(n.args) > 1:
                for x, y in zip(n.args, n.args[1:]):
                    if text(x) != text(y):
                        out.append((n.lineno, 'swapargs', span(x)[0], span(y)[1],
                            text(y) + ', ' + text(x)))
        if isinstance(n, ast.ExceptHandler) and isinstance(n.type, ast.Tuple):
            for i, x in enumerate(n.type.elts):
                put(n.type, 'except', '(' + ''.join(text(y) + ', ' for j, y in enumerate(
                    n.type.elts) if j != i) + ')')
        for c in ast.iter_child_nodes(n):
            visit(c, quiet)
    visit(tree, False)
    res = []
    for l, kind, a, b, new in out:
        m = data[:a] + new.encode() + data[b:]
        try:
            compile(m, 'x', 'exec')
        except (SyntaxError, ValueError):
            continue
        if m != data:
            res.append((l, kind, m.decode()))
    return res


def main():
    args = sys.argv[1:]
    jobs = 4
    if '-j' in args:
        i = args.index('-j')
        jobs = int(args[i + 1])
        del args[i:i + 2]
    n, seed = int(args[0]), int(args[1])
    rnd = random.Random(seed)
    pool = []
    for f in sorted(args[2:] or FILES):
        src = open('/repo/' + f).read()
        c = candidates(src)
        lines = src.split('\n')
        pool += [(f, l, k, m, lines[l - 1].strip(), m.split('\n')[l - 1].strip()) for l, k, m in c]
    print('%d candidates' % len(pool))
    todo = rnd.sample(pool, min(n, len(pool)))

    def run(x):
        i, (f, l, k, m, old, new) = x
        try:
            st, msg = ml.judge('a%d_%d' % (seed, i), f, m, FILES[f].split(), max(1, 8 // jobs))
        except Exception as e:
            st, msg = 'ERROR', repr(e)
        print('%-7s %s:%d %s  %s  ->  %s   %s' % (st, f, l, k, old[:90], new[:90], msg), flush=True)
    with ThreadPoolExecutor(jobs) as ex:
        list(ex.map(run, enumerate(todo)))


if __name__ == '__main__':
    main()
