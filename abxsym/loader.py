"""Loads the modules of ABXpy from the current source tree into a private
module registry in which numpy, math, h5py, ... are the symbolic stand-ins.

Nothing of the code under test is rewritten: the source text is compiled as it
is and executed in a namespace whose `__builtins__` resolve imports, int(),
float(), min() and max() to our versions.  The Cython module is translated to
Python by dropping its C declarations (`pyx_to_python`).
"""
import ast
import builtins
import io
import os
import re
import sys
import types

from . import core, npproxy, pybuiltins

REPO = os.environ.get('ABX_REPO', '/repo')


class _Consts(ast.NodeTransformer):
    """replaces literal constants (as 100000 or as 10 ** 5)"""

    def __init__(self, consts):
        self.consts = consts

    def _sub(self, n, v):
        if type(v) is int and v in self.consts:
            return ast.copy_location(ast.Constant(self.consts[v]), n)
        return n

    def visit_Constant(self, n):
        return self._sub(n, n.value)

    def visit_BinOp(self, n):
        if isinstance(n.op, ast.Pow) and isinstance(n.left, ast.Constant) and \
                isinstance(n.right, ast.Constant):
            try:
                return self._sub(n, n.left.value ** n.right.value)
            except Exception:
                return n
        self.generic_visit(n)
        return n


def const_tree(src, consts):
    return ast.fix_missing_locations(_Consts(consts).visit(ast.parse(src)))


class Loader(object):
    def __init__(self, stubs, repo=REPO, extra_builtins=None, consts=None,
                 sets=False):
        self.consts = consts
        self.sets = sets
        self.repo = repo
        self.mods = {}
        self.stubs = dict(stubs)
        self.files = set()
        bi = dict(vars(builtins))
        bi['int'] = npproxy.PInt
        bi['float'] = npproxy.PFloat
        bi['min'] = npproxy.p_min
        bi['max'] = npproxy.p_max
        bi.update(pybuiltins.BUILTINS)
        bi['print'] = lambda *a, **k: None
        bi['__import__'] = self._import
        if sets:
            from . import sets as ordered
            bi.update(ordered.BUILTINS)
        bi.update(extra_builtins or {})
        self.builtins = bi

    # ---- import machinery
    def _import(self, name, globals=None, locals=None, fromlist=(), level=0):
        if level:
            pkg = globals['__package__'] or ''
            parts = pkg.split('.')
            base = '.'.join(parts[:len(parts) - (level - 1)])
            name = base + ('.' + name if name else '')
        if name == 'ABXpy' or name.startswith('ABXpy.'):
            m = self.load(name)
            if not fromlist:
                return self.load(name.split('.')[0])
            for f in fromlist:
                if f == '*':
                    for s in getattr(m, '__all__', ()):
                        self._try_sub(m, s)
                elif not hasattr(m, f):
                    self._try_sub(m, f)
            return m
        top = name.split('.')[0]
        if top in self.stubs:
            m = self.stubs[top]
            if '.' not in name:
                return m
            sub = m
            for p in name.split('.')[1:]:
                sub = getattr(sub, p)
            return sub if fromlist else m
        return builtins.__import__(name, globals, locals, fromlist, 0)

    def _try_sub(self, m, s):
        try:
            setattr(m, s, self.load(m.__name__ + '.' + s))
        except ModuleNotFoundError:
            pass

    def find(self, name):
        p = os.path.join(self.repo, *name.split('.'))
        if os.path.isfile(os.path.join(p, '__init__.py')):
            return os.path.join(p, '__init__.py'), True
        if os.path.isfile(p + '.py'):
            return p + '.py', False
        last = name.split('.')[-1]
        for q in (os.path.join(p, last + '.pyx'), p + '.pyx'):
            if os.path.isfile(q):
                return q, False
        return None, False

    def load(self, name):
        if name in self.mods:
            return self.mods[name]
        if name in self.stubs:
            return self.stubs[name]
        if '.' in name:
            parent = self.load(name.rsplit('.', 1)[0])
        else:
            parent = None
        path, is_pkg = self.find(name)
        if path is None:
            raise ModuleNotFoundError('No module named %r' % name, name=name)
        m = types.ModuleType(name)
        m.__file__ = path
        m.__dict__['__builtins__'] = self.builtins
        if is_pkg:
            m.__path__ = [os.path.dirname(path)]
            m.__package__ = name
        else:
            m.__package__ = name.rpartition('.')[0]
        self.mods[name] = m
        with io.open(path, encoding='utf8') as f:
            src = f.read()
        try:
            if path.endswith('.pyx'):
                tree = pyx_tree(src)
                m.__dict__['__c_int__'] = c_int
                m.__dict__['__c_f32__'] = c_f32
            elif self.consts:
                tree = const_tree(src, self.consts)
            elif self.sets:
                from . import sets
                tree = sets.tree(src)
            else:
                tree = src
            code = compile(tree, path, 'exec', dont_inherit=True)
            self.files.add(path)
            exec(code, m.__dict__)
        except BaseException:
            del self.mods[name]
            raise
        if parent is not None:
            setattr(parent, name.rsplit('.', 1)[1], m)
        return m


# ---- Cython ------------------------------------------------------------------

_CTYPE = (r'(?:unsigned\s+)?(?:np\.|cnp\.)?(?:ndarray|DTYPE_t|[A-Za-z_]\w*)'
          r'(?:\[[^\]]*\])?\s*\**')


def _py_params(params):
    """typed parameter list -> untyped"""
    out = []
    depth = 0
    cur = ''
    for ch in params:
        if ch in '[(':
            depth += 1
        elif ch in '])':
            depth -= 1
        if ch == ',' and depth == 0:
            out.append(cur)
            cur = ''
        else:
            cur += ch
    if cur.strip():
        out.append(cur)
    res = []
    for p in out:
        p = p.strip()
        head, eq, dflt = p.partition('=')
        head = re.sub(r'\[[^\]]*\]', '', head).strip()
        nm = head.split()[-1].lstrip('*') if not head.startswith('*') \
            else head
        res.append(nm + (eq + dflt if eq else ''))
    return ', '.join(res)


_INT_T = ('int', 'long', 'short', 'char', 'Py_ssize_t', 'size_t', 'unsigned',
          'intp_t', 'int64_t', 'int32_t', 'int16_t', 'int8_t', 'uint64_t',
          'uint32_t', 'uint16_t', 'uint8_t', 'bint')
_F32_T = ('float', 'float32_t')


def c_int(x):
    if isinstance(x, core.SNum):
        return core.raw_trunc(core.strip(x))
    return builtins.int(x)


def c_f32(x):
    from . import arr
    return arr.cast_elem(core.strip(x), arr.np.dtype('float32'))


def _ctypes_of(src):
    """C-typed scalar variables of the text: name -> 'int' | 'f32'"""
    alias = {}
    for m in re.finditer(r'^\s*ctypedef\s+(.+?)\s+(\w+)\s*(?:#.*)?$', src,
                         re.M):
        alias[m.group(2)] = m.group(1).split('.')[-1].split()[-1]
    kinds = {}
    for m in re.finditer(r'^\s*cdef\s+(?!class)([\w\. ]+?)\s+(\w[\w\s,=\.\-]*?)'
                         r'\s*(?:#.*)?$', src, re.M):
        t = m.group(1).split('.')[-1].split()[-1]
        t = alias.get(t, t)
        k = 'int' if t in _INT_T else 'f32' if t in _F32_T else None
        if k:
            for v in m.group(2).split(','):
                kinds[v.split('=')[0].strip()] = k
    return kinds


class _CTyped(ast.NodeTransformer):
    """values assigned to C-typed scalars are converted as C does"""

    def __init__(self, kinds):
        self.kinds = kinds

    def _conv(self, name, value):
        k = self.kinds.get(name)
        if k is None:
            return value
        return ast.copy_location(ast.Call(
            ast.Name('__c_int__' if k == 'int' else '__c_f32__', ast.Load()),
            [value], []), value)

    def visit_Assign(self, n):
        self.generic_visit(n)
        if len(n.targets) == 1 and isinstance(n.targets[0], ast.Name):
            n.value = self._conv(n.targets[0].id, n.value)
        return n

    def visit_AugAssign(self, n):
        self.generic_visit(n)
        if isinstance(n.target, ast.Name) and n.target.id in self.kinds:
            load = ast.copy_location(ast.Name(n.target.id, ast.Load()), n)
            val = ast.copy_location(ast.BinOp(load, n.op, n.value), n)
            new = ast.Assign([n.target], self._conv(n.target.id, val))
            return ast.copy_location(new, n)
        return n


def pyx_tree(src):
    tree = ast.parse(pyx_to_python(src))
    tree = _CTyped(_ctypes_of(src)).visit(tree)
    return ast.fix_missing_locations(tree)


def pyx_to_python(src):
    """Python text equivalent of the subset of Cython the tree uses: cdef
    variable declarations are dropped (declared names get a None or are left
    to their first assignment), cdef/cpdef functions become def, cimports go.
    C arithmetic is not modelled: a C integer division or modulo in the text
    is refused (see `check_cdivision`)."""
    lines = src.split('\n')
    out = []
    i = 0
    # join continued signatures
    while i < len(lines):
        ln = lines[i]
        s = ln.strip()
        indent = ln[:len(ln) - len(ln.lstrip())]
        if re.match(r'(c?p?def)\s+.*\(', s) and not s.startswith('class'):
            while ln.count('(') > ln.count(')'):
                i += 1
                ln = ln + ' ' + lines[i].strip()
                out.append(None)          # keep line numbers
            s = ln.strip()
            s = re.sub(r'\s+(nogil|except\s*[\?\*]?\s*-?\w*)\s*:$', ':', s)
            m = re.match(r'(cpdef|cdef|def)\s+(.*?)(\w+)\s*\((.*)\)\s*'
                         r'(?:->[^:]*)?:\s*$', s)
            if m and (m.group(1) != 'cdef' or s.endswith(':')):
                new = '%sdef %s(%s):' % (indent, m.group(3),
                                         _py_params(m.group(4)))
                while out and out[-1] is None:
                    out.pop()
                    out.append('')
                    break
                out = ['' if o is None else o for o in out]
                out.append(new)
                i += 1
                continue
            out = ['' if o is None else o for o in out]
        if re.match(r'from\s+\S+\s+cimport|cimport\s', s) or \
                re.match(r'ctypedef\s', s) or re.match(
                    r'@cython\.|@cython$', s):
            out.append(indent + 'pass' if indent else '')
            i += 1
            continue
        if re.match(r'cdef\s*:\s*$', s):
            out.append(indent + 'if True:')
            i += 1
            while i < len(lines):
                l2 = lines[i]
                if l2.strip() and len(l2) - len(l2.lstrip()) <= len(indent):
                    break
                out.append(_decl(l2.strip(), l2[:len(l2) - len(l2.lstrip())])
                           if l2.strip() else '')
                i += 1
            continue
        m = re.match(r'cdef\s+(.*)$', s)
        if m:
            out.append(_decl(m.group(1), indent))
            i += 1
            continue
        out.append(re.sub(r'<\s*(?:double|float|int|long|Py_ssize_t)\s*>\s*',
                          '', ln))
        i += 1
    return '\n'.join('' if o is None else o for o in out)


def _decl(d, indent):
    d = d.split('#')[0].strip()
    d = re.sub(r'\[[^\]=]*\]', '', d, count=1) if re.match(
        r'[\w\.]+\s*\[', d) else d
    parts = d.split('=', 1)
    names = parts[0]
    toks = names.split(',')
    first = toks[0].split()
    vs = [first[-1].lstrip('*')] + [t.strip().lstrip('*') for t in toks[1:]]
    if len(parts) == 2 and len(vs) == 1:
        return '%s%s = %s' % (indent, vs[0], parts[1].strip())
    if '=' in d:
        # cdef int i = 0, j = 0
        rest = d.split(None, 1)[1]
        st = [p.strip() for p in rest.split(',') if '=' in p]
        return indent + ('; '.join(st) or 'pass')
    return indent + 'pass'
