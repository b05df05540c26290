"""Application scripts as modules.

The example scripts under applications/ are ordinary modules (importable), or scripts that run a simulation when imported,
or modules that tidy their own output folder when imported.  `load` executes the source under test with `__file__` set to a
scratch folder, so nothing in the repository is written; with defs_only it keeps the script's imports, definitions and
constants and leaves out the statements that run the simulation.  Tracebacks keep the real path."""
import ast
import atexit
import os
import shutil
import sys
import tempfile
import types
from pbt.core import REPO

PURE = {'np', 'onp', 'jnp', 'jax', 'math', 'functools', 'numpy'}
FREE = {'float', 'int', 'tuple', 'list', 'dict', 'set', 'range', 'len', 'min', 'max', 'abs', 'sum', 'zip', 'sorted', 'str'}
IO = {'load', 'loadtxt', 'genfromtxt', 'save', 'savez', 'savetxt', 'fromfile'}
_scratch = None


def scratch():
    global _scratch
    if _scratch is None:
        _scratch = tempfile.mkdtemp(prefix='pbt_app_')
        atexit.register(lambda: shutil.rmtree(_scratch, ignore_errors=True))
    return _scratch


def _root(f):
    chain = []
    while isinstance(f, ast.Attribute):
        chain.append(f.attr)
        f = f.value
    return (f.id if isinstance(f, ast.Name) else None), chain


def _keep(node, local):
    if isinstance(node, (ast.Import, ast.ImportFrom, ast.FunctionDef, ast.ClassDef, ast.AsyncFunctionDef)):
        return True
    if isinstance(node, (ast.Assign, ast.AnnAssign)):
        targets = node.targets if isinstance(node, ast.Assign) else [node.target]
        if not all(isinstance(t, (ast.Name, ast.Tuple)) for t in targets) or node.value is None:
            return False
        stack = [node.value]
        while stack:
            n = stack.pop()
            if isinstance(n, ast.Lambda):
                continue                                  # not executed now
            if isinstance(n, ast.Call):
                root, chain = _root(n.func)
                if not (root in PURE and not set(chain) & IO or (not chain and (root in FREE or root in local))):
                    return False
            stack.extend(ast.iter_child_nodes(n))
        return True
    return False


def load(path, name, defs_only=False, extra=None):
    if name in sys.modules:
        return sys.modules[name]
    if REPO not in sys.path:
        sys.path.append(REPO)             # scripts import their neighbours as applications.<name>
    full = REPO + path
    with open(full) as f:
        tree = ast.parse(f.read(), full)
    mod = types.ModuleType(name)
    d = os.path.join(scratch(), name)
    os.makedirs(d, exist_ok=True)
    mod.__file__ = os.path.join(d, os.path.basename(path))
    mod.__dict__.update(extra or {})
    sys.modules[name] = mod
    # a sibling module (eigen.py next to the script) keeps importing the way it does for a user who runs the script
    env = os.environ.get('CUDA_VISIBLE_DEVICES')
    try:
        if not defs_only:
            exec(compile(tree, full, 'exec'), mod.__dict__)
        else:
            local = {n.name for n in tree.body if isinstance(n, ast.FunctionDef)}
            for node in tree.body:
                if not _keep(node, local):
                    continue
                code = compile(ast.Module([node], []), full, 'exec')
                try:
                    exec(code, mod.__dict__)
                except NameError:                        # depends on something the simulation part creates
                    if not isinstance(node, (ast.Assign, ast.AnnAssign)):
                        raise
    except BaseException:
        sys.modules.pop(name, None)
        raise
    finally:
        if env is None:
            os.environ.pop('CUDA_VISIBLE_DEVICES', None)
        else:
            os.environ['CUDA_VISIBLE_DEVICES'] = env
    return mod
