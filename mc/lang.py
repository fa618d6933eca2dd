"""Another user interface language: a child process with a translated catalogue.

The catalogue is compiled from the .po file of the tree under test, put where
the tools look for it (below the working directory), and selected through the
environment before anything is imported, as a user does it.
"""
import ast
import json
import os
import re
import struct
import subprocess
import sys
import tempfile


def read_po(path):
    """{msgid: msgstr} of the plain entries of a .po file."""
    ret, cur, key = {}, {}, None
    with open(path, encoding='utf-8') as f:
        lines = f.read().split('\n')
    for line in lines + ['msgid ""']:
        line = line.strip()
        m = re.match(r'(msgid|msgstr)\s+(".*")$', line)
        if m:
            if m.group(1) == 'msgid' and 'msgstr' in cur:
                ret[cur['msgid']] = cur['msgstr']
                cur = {}
            key = m.group(1)
            cur[key] = ast.literal_eval(m.group(2))
        elif line.startswith('"') and key:
            cur[key] += ast.literal_eval(line)
    return ret


def write_mo(path, entries):
    """GNU message catalogue, version 0."""
    items = sorted((k.encode(), v.encode()) for k, v in entries.items() if v)
    n = len(items)
    ids, strs, a, b = b'', b'', [], []
    for k, v in items:
        a.append((len(k), len(ids)))
        ids += k + b'\0'
        b.append((len(v), len(strs)))
        strs += v + b'\0'
    start = 28 + 16 * n
    out = struct.pack('<7I', 0x950412de, 0, n, 28, 28 + 8 * n, 0, start)
    for l, o in a:
        out += struct.pack('<2I', l, start + o)
    for l, o in b:
        out += struct.pack('<2I', l, start + len(ids) + o)
    with open(path, 'wb') as f:
        f.write(out + ids + strs)


def languages(repo):
    d = os.path.join(repo, 'lang')
    return sorted(x for x in os.listdir(d) if os.path.exists(
        os.path.join(d, x, 'LC_MESSAGES', 'rktool.po')))


def call(repo, lang, module, function, arg, timeout=300):
    """module.function(arg) of /verif, in a process speaking lang."""
    here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
    with tempfile.TemporaryDirectory(dir=os.environ.get('RKSVMC_SCRATCH')) as d:
        to = os.path.join(d, 'lang', lang, 'LC_MESSAGES')
        os.makedirs(to)
        write_mo(os.path.join(to, 'rktool.mo'), read_po(
            os.path.join(repo, 'lang', lang, 'LC_MESSAGES', 'rktool.po')))
        # mc.env clears LANGUAGE: gettext is asked before
        code = ('import os, sys, json\n'
            'sys.dont_write_bytecode = True\n'
            'sys.path.insert(0, %r)\n'
            'sys.path.insert(0, %r)\n'
            'from librksv import gettext_helper\n'
            'from mc import env\n'
            'import importlib\n'
            'os.environ["LANGUAGE"] = %r\n'
            'm = importlib.import_module(%r)\n'
            'r = getattr(m, %r)(json.load(sys.stdin))\n'
            'sys.stdout.flush()\n'
            'with open("out.json", "w") as f:\n'
            '    json.dump(r, f)\n') % (here, repo, lang, module, function)
        e = dict(os.environ, LANGUAGE=lang, LC_ALL='C.UTF-8', RKSV_VERIF_REPO=repo,
            RKSVMC_SCRATCH=d)
        p = subprocess.run([sys.executable, '-B', '-W', 'ignore', '-c', code], cwd=d, env=e,
            input=json.dumps(arg), stdout=subprocess.PIPE, stderr=subprocess.PIPE,
            universal_newlines=True, timeout=timeout)
        if p.returncode:
            raise RuntimeError('child process: %s' % p.stderr[-3000:])
        with open(os.path.join(d, 'out.json')) as f:
            return json.load(f)
