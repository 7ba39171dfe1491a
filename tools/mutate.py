"""
Development aid: which small changes of the code does nothing notice?

    python3 tools/mutate.py FILE...      (of gopher_render; results in /tmp/m)

Every change of one operator, constant, condition, statement, argument or entry is
made in a scratch copy; if the tests still pass with it, some cases of every
space of every check are run (tools/screen.py). This only screens: what it lets
through is looked at, and tried with the checks as they are.
"""
import ast, concurrent.futures, copy, json, os, shutil, subprocess, sys, time
V = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
OUT = '/tmp/m'
PY = '/opt/venv/bin/python'
CMP = {ast.Eq: [ast.NotEq], ast.NotEq: [ast.Eq], ast.Lt: [ast.LtE, ast.Gt], ast.LtE: [ast.Lt], ast.Gt: [ast.GtE, ast.Lt], ast.GtE: [ast.Gt], ast.In: [ast.NotIn], ast.NotIn: [ast.In], ast.Is: [ast.IsNot], ast.IsNot: [ast.Is]}
BIN = {ast.Add: [ast.Sub], ast.Sub: [ast.Add], ast.Mult: [ast.FloorDiv], ast.FloorDiv: [ast.Mult], ast.Mod: [ast.FloorDiv], ast.BitAnd: [ast.BitOr]}
NAMES = {'strip': ['lstrip', 'rstrip'], 'lstrip': ['strip'], 'rstrip': ['strip'], 'startswith': ['endswith'], 'endswith': ['startswith'], 'upper': ['capitalize'], 'splitlines': ['split'], 'lower': ['upper'],
         'update': ['setdefault'], 'LEFT': ['RIGHT'], 'RIGHT': ['LEFT'], 'TOP': ['BOTTOM'], 'BOTTOM': ['TOP'], 'inner_width': ['padded_width', 'inner_width_excluding_line_template'], 'padded_width': ['inner_width', 'bordered_width'],
         'bordered_width': ['padded_width'], 'inner_width_excluding_line_template': ['inner_width', 'width'], 'rpartition': ['partition'], 'total_margin': ['margin'], 'total_padding': ['padding'], 'total_border': ['border'],
         'total_line_template_padding': ['line_template_padding'], 'margin': ['padding'], 'padding': ['margin'], 'box': [], 'append': [], 'extend': ['append'], 'start_index': ['step'], 'step': ['start_index'], 'initial_indent': ['subsequent_indent'], 'subsequent_indent': ['initial_indent'],
         'link_renderer': ['renderer'], 'link_renderer_settings': ['renderer_settings'], 'children': [], 'parent': [], 'match': ['search'], 'get_for_tag': []}


def variants(node):
    """Changed copies of a node."""
    def c(**kw):
        n = copy.copy(node)
        for k, v in kw.items():
            setattr(n, k, v)
        return n
    if isinstance(node, ast.Compare):
        for i, op in enumerate(node.ops):
            for o in CMP.get(type(op), []):
                yield c(ops=node.ops[:i] + [o()] + node.ops[i + 1:])
    if isinstance(node, ast.BinOp):
        for o in BIN.get(type(node.op), []):
            yield c(op=o())
    if isinstance(node, ast.BoolOp):
        yield c(op=ast.And() if isinstance(node.op, ast.Or) else ast.Or())
        for i in range(len(node.values)):
            rest = node.values[:i] + node.values[i + 1:]
            yield c(values=rest) if len(rest) > 1 else rest[0]
    if isinstance(node, ast.UnaryOp) and isinstance(node.op, (ast.Not, ast.USub)):
        yield node.operand
    if isinstance(node, (ast.If, ast.While, ast.IfExp)):
        yield c(test=ast.Constant(False))
        if not isinstance(node, ast.While):
            yield c(test=ast.Constant(True))
    if isinstance(node, ast.Constant):
        v = node.value
        if isinstance(v, bool):
            yield c(value=not v)
        elif isinstance(v, int):
            yield c(value=v + 1)
            yield c(value=v - 1)
        elif isinstance(v, str):
            yield c(value='' if v else 'X')
            if v and len(v) < 40:
                yield c(value=v + ' ')
                yield c(value='X' + v)
    if isinstance(node, ast.Attribute):
        for n in NAMES.get(node.attr, []):
            yield c(attr=n)
    if isinstance(node, ast.Call):
        for i in range(len(node.keywords)):
            yield c(keywords=node.keywords[:i] + node.keywords[i + 1:])
        if len(node.args) > 1:
            yield c(args=node.args[:-1])
        if len(node.args) == 1 and not node.keywords and isinstance(node.func, ast.Name):
            yield node.args[0]
        if isinstance(node.func, ast.Attribute) and node.func.attr in ('strip', 'lstrip', 'rstrip', 'lower', 'split', 'splitlines', 'copy', 'expandtabs'):
            yield node.func.value
    if isinstance(node, ast.Dict):
        for i in range(len(node.keys)):
            yield c(keys=node.keys[:i] + node.keys[i + 1:], values=node.values[:i] + node.values[i + 1:])
    if isinstance(node, (ast.List, ast.Tuple)) and isinstance(node.ctx, ast.Load) and len(node.elts) > 2:
        for i in range(len(node.elts)):
            yield c(elts=node.elts[:i] + node.elts[i + 1:])
    if isinstance(node, ast.Slice):
        if node.lower is not None:
            yield c(lower=None)
        if node.upper is not None:
            yield c(upper=None)
        if node.step is not None:
            yield c(step=None)
    if isinstance(node, ast.comprehension):
        for i in range(len(node.ifs)):
            yield c(ifs=node.ifs[:i] + node.ifs[i + 1:])
    if isinstance(node, (ast.Expr, ast.Assign, ast.AugAssign, ast.Delete)) and not (isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant)):
        yield ast.Pass()
    if isinstance(node, ast.Continue):
        yield ast.Break()
        yield ast.Pass()
    if isinstance(node, ast.Break):
        yield ast.Continue()
    if isinstance(node, ast.Return) and node.value is not None and not (isinstance(node.value, ast.Constant) and node.value.value is None):
        yield c(value=ast.Constant(None))


def is_docstring(parent, node):
    return isinstance(parent, ast.Expr) and isinstance(node, ast.Constant)


def mutants(source):
    tree = ast.parse(source)
    base = ast.unparse(tree)
    seen = set()
    spots = []
    for parent in ast.walk(tree):
        for field, value in ast.iter_fields(parent):
            if isinstance(value, ast.AST):
                spots.append((parent, field, None, value))
            elif isinstance(value, list):
                for i, v in enumerate(value):
                    if isinstance(v, ast.AST):
                        spots.append((parent, field, i, v))
    for parent, field, i, node in spots:
        if is_docstring(parent, node) or isinstance(parent, (ast.Import, ast.ImportFrom)):
            continue
        for v in variants(node):
            if i is None:
                setattr(parent, field, v)
            else:
                getattr(parent, field)[i] = v
            try:
                text = ast.unparse(ast.fix_missing_locations(tree))
                compile(text, 'x', 'exec')
            except Exception:
                text = None
            if i is None:
                setattr(parent, field, node)
            else:
                getattr(parent, field)[i] = node
            if text and text != base and text not in seen:
                seen.add(text)
                line = getattr(node, 'lineno', getattr(parent, 'lineno', 0))
                yield line, describe(node), describe(v), text


def describe(n):
    try:
        return ast.unparse(n).split('\n')[0][:100]
    except Exception:
        return type(n).__name__


def try_one(job):
    name, number, line, old, new, text = job
    w = '{}/w{}-{}'.format(OUT, name.replace('/', '_'), number)
    shutil.rmtree(w, ignore_errors=True)
    shutil.copytree('/repo', w, symlinks=True)
    try:
        with open(os.path.join(w, 'gopher_render', name), 'w') as f:
            f.write(text)
        env = dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONPATH=w)
        try:
            r = subprocess.run([PY, '/opt/vp/run_pytest.py', '-q', '-x', '-p', 'no:cacheprovider', '--assert=plain', 'tests'], cwd=w, env=env, capture_output=True, text=True, timeout=60)
        except subprocess.TimeoutExpired:
            return dict(file=name, n=number, line=line, old=old, new=new, result='tests')
        if r.returncode != 0 or '48 passed' not in r.stdout:
            return dict(file=name, n=number, line=line, old=old, new=new, result='tests')
        t = time.time()
        r = subprocess.run(['unshare', '-Urm', 'bash', '-c', 'mount --bind {} /repo && exec {} -W ignore {}/tools/screen.py'.format(w, PY, V)], capture_output=True, text=True, env=dict(os.environ, PYTHONDONTWRITEBYTECODE='1', PYTHONHASHSEED='0'))
        out = r.stdout.strip().split('\n')[-1]
        return dict(file=name, n=number, line=line, old=old, new=new, result=out if r.returncode == 0 else 'ERROR ' + r.stderr[-300:], seconds=round(time.time() - t))
    finally:
        shutil.rmtree(w)


if __name__ == '__main__':
    os.makedirs(OUT, exist_ok=True)
    for name in sys.argv[1:]:
        name, _, part = name.partition(':')
        jobs = [(name, i, *m) for i, m in enumerate(mutants(open('/repo/gopher_render/' + name).read()))]
        if part:
            a, b = part.split('/')
            jobs = jobs[int(a)::int(b)]
        with open('{}/{}.jsonl'.format(OUT, name.replace('/', '_')), 'a') as f:
            print(name, len(jobs), flush=True)
            with concurrent.futures.ThreadPoolExecutor(int(os.environ.get('JOBS', 7))) as ex:
                for r in ex.map(try_one, jobs):
                    f.write(json.dumps(r) + '\n')
                    f.flush()
