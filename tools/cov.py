"""cov.py [cases] [PID ...]: lines of the library that no check executes (a development aid)."""
import os
import sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('PYTHONHASHSEED') != '0':
    os.environ['PYTHONHASHSEED'] = '0'
    os.environ['PYTHONDONTWRITEBYTECODE'] = '1'
    os.execv('/opt/venv/bin/python', ['/opt/venv/bin/python'] + sys.argv)
sys.path.insert(0, HERE)
import dis
import glob
import importlib
import json
import multiprocessing
ROOT = os.path.realpath(os.environ.get('VERIF_REPO', '/repo')) + '/openid/'


def run(args):
    pid, n = args
    hit = {}
    m = sys.monitoring
    m.use_tool_id(1, 'cov')

    def line(code, no):
        if code.co_filename.startswith(ROOT):
            hit.setdefault(code.co_filename[len(ROOT):], set()).add(no)
        return m.DISABLE
    m.register_callback(1, m.events.LINE, line)
    m.set_events(1, m.events.LINE)
    from vf import core
    mod = importlib.import_module('props.' + pid.lower())
    for facet in mod.FACETS:
        r = core.run_facet(facet, min(n, facet.quick), 7)
        if r['failure']:
            print(pid, facet.name, r['failure']['message'][:300])
    return pid, {k: sorted(v) for k, v in hit.items()}


def lines(path):
    out = set()

    def walk(code):
        for _, _, no in code.co_lines():
            if no:
                out.add(no)
        for c in code.co_consts:
            if hasattr(c, 'co_code'):
                walk(c)
    walk(compile(open(path).read(), path, 'exec'))
    return out


def main():
    n = int(sys.argv[1]) if len(sys.argv) > 1 else 200
    pids = sys.argv[2:] or sorted(os.path.basename(p)[:-3].upper() for p in glob.glob(HERE + '/props/c[0-9][0-9].py'))
    hit = {}
    with multiprocessing.get_context('spawn').Pool(6, maxtasksperchild=1) as pool:
        for pid, h in pool.imap_unordered(run, [(p, n) for p in pids], 1):
            for k, v in h.items():
                hit.setdefault(k, set()).update(v)
    for path in sorted(glob.glob(ROOT + '**/*.py', recursive=True)):
        rel = path[len(ROOT):]
        if rel.startswith('test'):
            continue
        src = open(path).read().split('\n')
        missing = sorted(x for x in lines(path) - hit.get(rel, set()) if src[x - 1].strip() and not src[x - 1].strip().startswith(('"""', "'''", '"', 'def ', 'class ', '@')))
        print('== %s: %d of %d lines not executed' % (rel, len(missing), len(lines(path))))
        for x in missing:
            print('%5d %s' % (x, src[x - 1]))


if __name__ == '__main__':
    main()
