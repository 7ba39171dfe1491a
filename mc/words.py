"""
What the code under test itself mentions: the words and the numbers in its
source, as an additional vocabulary for documents and configurations. A special
case for a name, a value, an address or a size has to be written down
somewhere. Only the inputs come from here; what is judged is what they lead to.

words.json has those of the code at the time of writing. The few that are not in
there are combined in more ways than the others. (tools/mkwords.py writes it.)
"""
import ast
import glob
import json
import os
import re

HERE = os.path.dirname(os.path.abspath(__file__))
WORD = re.compile(r'[^\W\d_][\w.:-]*')
LONGEST = 30


def strings_and_numbers(path):
    with open(path, encoding='utf-8') as f:
        tree = ast.parse(f.read())
    documentation = set()
    for node in ast.walk(tree):
        if isinstance(node, ast.Expr) and isinstance(node.value, ast.Constant):
            documentation.add(id(node.value))
    for node in ast.walk(tree):
        if isinstance(node, ast.Constant) and id(node) not in documentation:
            yield node.value


def harvest(package=None):
    if package is None:
        import gopher_render
        package = os.path.dirname(gopher_render.__file__)
    words, numbers, characters = set(), set(), set()
    for path in sorted(glob.glob(os.path.join(package, '*.py'))):
        try:
            constants = list(strings_and_numbers(path))
        except (SyntaxError, ValueError, OSError):
            continue
        for value in constants:
            if isinstance(value, bytes):
                value = value.decode('latin-1')
            if isinstance(value, str):
                characters.update(value[:1000])
                whole = value.strip()
                if whole and len(whole) <= LONGEST and whole.isprintable():
                    words.add(whole)
                words.update(w.rstrip('.:-') for w in WORD.findall(value) if len(w) <= LONGEST)
            elif isinstance(value, (int, float)) and not isinstance(value, bool) and 0 <= value <= 5000:
                numbers.add(int(value))
    return sorted(words), sorted(numbers), sorted(characters)


def vocabulary():
    """Those of the known ones that are (still) there, and the new ones: two dictionaries."""
    with open(os.path.join(HERE, 'words.json')) as f:
        base = json.load(f)
    now = dict(zip(('words', 'numbers', 'characters'), harvest()))
    known = {k: [x for x in v if x in set(base[k])] for k, v in now.items()}
    new = {k: [x for x in v if x not in set(base[k])][:most] for (k, v), most in zip(now.items(), (24, 12, 60))}
    return known, new
