"""Environment: import z3 into the interpreter pyphs runs under, and pyphs from /repo."""
import sys
import os
import importlib.util

REPO = os.environ.get('VERIF_REPO', '/repo')
VERIF = os.environ.get('VERIF_HOME', '/verif')
SCRATCH = os.environ.get('VERIF_SCRATCH', '/tmp')
VT_SITE = '/opt/veriftools/pyvenv/lib/python3.12/site-packages'
SEED = int(os.environ.get('VERIF_SEED', '1') or 1)


def import_z3():
    """z3's python bindings are pure python over ctypes, they load in the repo's interpreter."""
    if 'z3' in sys.modules:
        return sys.modules['z3']
    sys.path.append(VT_SITE)
    try:
        import z3
    finally:
        sys.path.remove(VT_SITE)
    return z3


def import_pyphs(**overrides):
    """Import pyphs from /repo; `overrides` are values set in pyphs.config (its user-settable
    configuration module) before any other module of the package reads them."""
    if 'pyphs' in sys.modules:
        return sys.modules['pyphs']
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    path = os.path.join(REPO, 'pyphs', 'config.py')
    spec = importlib.util.spec_from_file_location('pyphs.config', path)
    mod = importlib.util.module_from_spec(spec)
    sys.modules['pyphs.config'] = mod
    spec.loader.exec_module(mod)
    mod.VERBOSE = 0
    for k, v in overrides.items():
        setattr(mod, k, v)
    import pyphs
    pyphs.config = mod
    assert os.path.realpath(pyphs.__file__).startswith(os.path.realpath(REPO)), pyphs.__file__
    return pyphs


def cramer_inverse():
    """sympy's inverse of a symbolic matrix (a normal-equation LDL factorisation with nested
    fractions) is replaced by the same value written as adjugate / determinant, which the solver
    handles: sympy is the environment of the code under test, not the code under test."""
    import sympy
    from sympy.matrices.sparse import SparseMatrix, MutableSparseMatrix
    from sympy.matrices.dense import DenseMatrix

    def inv(self, **kw):
        n = self.rows
        m = sympy.Matrix(n, n, lambda i, j: self[i, j])
        det = sympy.expand(m.det(method='berkowitz')) if n <= 3 else m.det(method='berkowitz')
        if det == 0 or (n > 3 and sympy.expand(det) == 0):
            raise ValueError('Matrix det == 0; not invertible.')
        adj = m.adjugate(method='berkowitz') if n > 1 else sympy.Matrix([[1]])
        return self._new(n, n, [adj[i, j] / det for i in range(n) for j in range(n)])
    SparseMatrix._eval_inverse = inv
    MutableSparseMatrix._eval_inverse = inv
    DenseMatrix._eval_inverse = inv
