"""
Loads the library under analysis as syntax trees.  Nothing of it is ever imported or executed.
"""
import ast
import os

REPO = os.environ.get('VERIF_REPO', '/repo')
TOP = 'discretehelpers'

EXCLUDED_DIRS = {'test', 'tests', 'examples', 'scripts', '__pycache__'}


class AnalysisError(Exception):
    """The analysis cannot give a verdict (vanished anchor, unreadable source, unexpected shape)."""


class Module:
    def __init__(self, name, path, is_pkg, source):
        self.name = name
        self.path = path          # relative to the repository
        self.is_pkg = is_pkg
        self.source = source
        try:
            self.tree = ast.parse(source, path)
        except SyntaxError as e:
            raise AnalysisError(f'{path} does not parse: {e}')

    @property
    def package(self):
        return self.name if self.is_pkg else self.name.rpartition('.')[0]

    def __repr__(self):
        return f'<{self.name}>'


def is_library_file(rel):
    parts = rel.split(os.sep)
    base = parts[-1]
    if any(p in EXCLUDED_DIRS for p in parts[:-1]):
        return False
    if base.startswith('test_') or base.endswith('_test.py') or base in ('test.py', 'conftest.py', '__main__.py'):
        return False
    return base.endswith('.py')


def load_modules(repo=None, include_examples=False):
    """Dict of module name to Module for all non-test library files."""
    repo = repo or REPO
    root = os.path.join(repo, TOP)
    if not os.path.isdir(root):
        raise AnalysisError(f'no package {root}')
    modules = {}
    for dirpath, dirnames, filenames in os.walk(root):
        dirnames.sort()
        for fn in sorted(filenames):
            full = os.path.join(dirpath, fn)
            rel = os.path.relpath(full, repo)
            if not is_library_file(rel):
                continue
            parts = rel[:-3].split(os.sep)
            is_pkg = parts[-1] == '__init__'
            if is_pkg:
                parts = parts[:-1]
            with open(full, encoding='utf-8') as fh:
                src = fh.read()
            name = '.'.join(parts)
            modules[name] = Module(name, rel, is_pkg, src)
    return modules


def all_module_names(repo=None):
    """Names of all importable modules, including examples, tests and namespace directories."""
    repo = repo or REPO
    root = os.path.join(repo, TOP)
    names = set()
    for dirpath, dirnames, filenames in os.walk(root):
        if '__pycache__' in dirpath.split(os.sep):
            continue
        rel = os.path.relpath(dirpath, repo).split(os.sep)
        names.add('.'.join(rel))
        for fn in filenames:
            if fn.endswith('.py') and fn != '__init__.py':
                names.add('.'.join(rel + [fn[:-3]]))
    return names


def resolve_relative(module, level, target):
    """Absolute module name for a (possibly relative) from-import inside `module`."""
    if level == 0:
        return target
    base = module.package.split('.')
    if level > 1:
        base = base[:len(base) - (level - 1)]
    if not base:
        return None
    return '.'.join(base + ([target] if target else []))
