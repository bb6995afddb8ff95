"""Lists the functions of /repo that no check has analysed (evidence/*.json)."""
import json, glob, ast, os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = os.environ.get('VERIF_REPO', '/repo')
seen = set()


def walk(x):
    if isinstance(x, dict):
        for k, v in x.items():
            if 'function' in k and isinstance(v, list):
                seen.update(map(str, v))
            walk(v)
    elif isinstance(x, list):
        for v in x:
            walk(v)


for f in glob.glob(HERE + '/evidence/*.json'):
    walk(json.load(open(f)))
for p in sorted(glob.glob(REPO + '/verktyg/**/*.py', recursive=True)):
    if 'testsuite' in p:
        continue
    m = p[len(REPO) + 1:-3].replace('/', '.').replace('.__init__', '')
    miss, n = [], [0]

    def rec(b, pre):
        for s in b:
            if isinstance(s, ast.FunctionDef):
                n[0] += 1
                if m + ':' + pre + s.name not in seen:
                    miss.append(pre + s.name)
            elif isinstance(s, ast.ClassDef):
                rec(s.body, pre + s.name + '.')
    rec(ast.parse(open(p).read()).body, '')
    if miss:
        print('%s %d/%d: %s' % (m, len(miss), n[0], ' '.join(miss)))
