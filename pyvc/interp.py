"""Symbolic interpreter of the real source: executes the functions of /repo as they are written.

What the extraction drops: docstrings, type annotations, comments, and calls of the package logger (their arguments are not
evaluated).  Everything else is executed statement by statement; a construct without a rule raises Unsupported.
"""

from __future__ import annotations

import ast
import builtins as pybuiltins
import os
from fractions import Fraction

import z3

from . import ops
from .core import Infeasible, Unsupported, cur
from .loops import exec_symbolic_loop
from .ops import ItemsView, KeysView, TypeV, ValuesView, binop, compare, num, type_of
from .values import *  # noqa: F403
from .values import ABSENT, T_BOOL, T_FLOAT, T_INT, T_STR


class Ret(Exception):
    def __init__(self, v):
        self.v = v


class Brk(Exception):
    pass


class Cont(Exception):
    pass


class ClassVal:
    def __init__(self, name, bases, ns, module):
        self.name, self.bases, self.ns, self.module = name, bases, ns, module

    def lookup(self, attr):
        if attr in self.ns:
            return self.ns[attr], self
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.lookup(attr)
                if r is not None:
                    return r
        return None

    def pybase(self):
        for b in self.bases:
            if isinstance(b, ClassVal):
                r = b.pybase()
                if r is not None:
                    return r
            elif isinstance(b, type):
                return b
        return None

    def subclass_of(self, other):
        if self is other:
            return True
        for b in self.bases:
            if b is other or (isinstance(b, ClassVal) and b.subclass_of(other)):
                return True
            if isinstance(b, type) and isinstance(other, type) and issubclass(b, other):
                return True
        return False

    def __repr__(self):
        return f'<class {self.name}>'


class Func:
    def __init__(self, node, env, module, qualname, cls=None, defaults=(), kwdefaults=None, static=False):
        self.node, self.env, self.module, self.qualname, self.cls = node, env, module, qualname, cls
        self.defaults, self.kwdefaults, self.static = defaults, kwdefaults or {}, static

    def __repr__(self):
        return f'<fn {self.qualname}>'


class Bound:
    def __init__(self, self_, func):
        self.self_, self.func = self_, func


class Builtin:
    def __init__(self, name, fn, raw=False):
        self.name, self.fn, self.raw = name, fn, raw

    def __repr__(self):
        return f'<builtin {self.name}>'


class Prop:
    def __init__(self, func):
        self.func = func


class Super:
    def __init__(self, self_, cls):
        self.self_, self.cls = self_, cls


class NS:
    """A library module model: attribute table"""

    def __init__(self, name, table):
        self.name, self.table = name, table


class Dropped:
    """logger and similar: any call is dropped"""

    def __init__(self, name):
        self.name = name


class Env:
    comp = False

    def __init__(self, parent=None, module=None):
        self.vars, self.parent, self.module = {}, parent, module

    def get(self, name):
        e = self
        while e is not None:
            if name in e.vars:
                return e.vars[name]
            e = e.parent
        return ABSENT

    def frozen(self):
        """the variables as they are now (module variables excepted)"""
        if self.parent is None:
            return self
        e = Env(self.parent.frozen(), self.module)
        e.vars = dict(self.vars)
        return e


class Module:
    def __init__(self, name, interp):
        self.name, self.interp = name, interp
        self.env = Env(None, self)
        self.loaded = False


class Interp:
    def __init__(self, repo, builtins, libs):
        self.repo = repo
        self.builtins = builtins
        self.libs = libs
        self.modules = {}
        self.stubs = {}
        self.havoc = {}
        self.bypass = set()
        self.called = {}
        self.lines = {}
        self.callhooks = []
        self.base_heap = {}
        self.logger_obj = None
        self.on_assign = None
        self.loop_rules = {}
        self.entry_inv = None

    # ---- modules --------------------------------------------------------------------------------------------------------
    def module(self, name):
        if name in self.modules:
            return self.modules[name]
        path = os.path.join(self.repo, *name.split('.'))
        if os.path.isdir(path):
            path = os.path.join(path, '__init__.py')
        else:
            path += '.py'
        if not os.path.exists(path):
            raise Unsupported(f'module {name} not found')
        with open(path) as f:
            tree = ast.parse(f.read())
        m = Module(name, self)
        self.modules[name] = m
        m.env.vars['__name__'] = name
        for st in tree.body:
            try:
                self.exec(st, m.env)
            except Unsupported as e:
                for n in ast.walk(st):
                    if isinstance(n, ast.Name) and isinstance(n.ctx, ast.Store):
                        m.env.vars[n.id] = Poison(f'module level {name}: {e}')
            except (PyExc, Infeasible) as e:
                raise Unsupported(f'module {name}: {e}') from e
        m.loaded = True
        return m

    def resolve(self, qual):
        """'devices.MechMdl.calc_deg_vals' -> Func"""
        parts = qual.split('.')
        for modname in (f'gerabaldi.{parts[0]}', f'gerabaldi.models.{parts[0]}', f'gerabaldi.math.{parts[0]}',
                        f'gerabaldi.cookbook.{parts[0][4:]}' if parts[0].startswith('ckb_') else None):
            if modname is None:
                continue
            p = os.path.join(self.repo, *modname.split('.'))
            if os.path.exists(p + '.py') or os.path.isdir(p):
                v = self.module(modname).env.get(parts[1])
                if v is ABSENT:
                    continue
                for a in parts[2:]:
                    r = v.lookup(a) if isinstance(v, ClassVal) else None
                    if r is None:
                        raise Unsupported(f'{qual} is not defined in this tree')
                    v = r[0]
                return v
        raise Unsupported(f'{qual} is not defined in this tree')

    # ---- statements -------------------------------------------------------------------------------------------------------
    def exec_block(self, body, env):
        for st in body:
            self.exec(st, env)

    def exec(self, n, env):
        m = getattr(self, 'x_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'statement {type(n).__name__} (line {n.lineno})')
        return m(n, env)

    def x_Expr(self, n, env):
        if isinstance(n.value, ast.Constant):
            return
        self.ev(n.value, env)

    def x_Pass(self, n, env):
        pass

    def x_Global(self, n, env):
        raise Unsupported('global statement')

    def x_Nonlocal(self, n, env):
        raise Unsupported('nonlocal statement')

    def x_Return(self, n, env):
        raise Ret(self.ev(n.value, env) if n.value is not None else None)

    def x_Break(self, n, env):
        raise Brk

    def x_Continue(self, n, env):
        raise Cont

    def x_Assign(self, n, env):
        v = self.ev(n.value, env)
        for t in n.targets:
            self.assign(t, v, env)

    def x_AnnAssign(self, n, env):
        if n.value is not None:
            self.assign(n.target, self.ev(n.value, env), env)

    def x_AugAssign(self, n, env):
        t = n.target
        if isinstance(t, ast.Name):
            old = self.lookup(t.id, env)
            new = self.augmented(old, n.op, self.ev(n.value, env))
            env.vars[t.id] = new
        elif isinstance(t, ast.Attribute):
            o = self.ev(t.value, env)
            old = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augmented(old, n.op, self.ev(n.value, env)))
        elif isinstance(t, ast.Subscript):
            o = self.ev(t.value, env)
            k = self.ev_slice(t.slice, env)
            old = self.getitem(o, k)
            self.setitem(o, k, self.augmented(old, n.op, self.ev(n.value, env)))
        else:
            raise Unsupported('augmented assignment target')

    def augmented(self, old, op, val):
        """in-place operators: arrays and lists are mutated in place"""
        if isinstance(old, ArrRef):
            new = binop(op, old, val)
            if len(new.shape) != len(old.shape):
                raise PyExc(ValueError)
            if old.dtype in ('int', 'any') and new.dtype not in ('int', 'bool'):
                # numpy does not write floating point numbers into integers
                if old.dtype == 'int' and new.dtype == 'float' or cur().fork(z3.Bool(f'integers!{cur().fresh_id()}')):
                    raise PyExc(TypeError)
            self.arr_store(old, new.st)
            return old
        if isinstance(old, ListRef) and isinstance(op, ast.Add):
            list_extend(old, self.as_segs(val))
            return old
        if isinstance(old, MapRef) and isinstance(op, ast.BitOr):
            ops.map_update(old, val)
            return old
        return binop(op, old, val)

    def arr_store(self, arr, st):
        b = arr
        while b.base is not None:
            b = b.base
            b.put((b.shape, self._poison_fn('array changed through a view')))
        arr.put(st)

    @staticmethod
    def _poison_fn(why):
        def f(idx):
            raise Unsupported(why)

        return f

    def assign(self, t, v, env):
        if isinstance(t, ast.Name):
            if self.on_assign is not None:
                v = self.on_assign(t.id, v)
            env.vars[t.id] = v
        elif isinstance(t, (ast.Tuple, ast.List)):
            vals = self.unpack(v)
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                for e, x in zip(t.elts[:i], vals[:i]):
                    self.assign(e, x, env)
                self.assign(t.elts[i].value, ListRef(vals[i : len(vals) - after]), env)
                for e, x in zip(t.elts[i + 1 :], vals[len(vals) - after :]):
                    self.assign(e, x, env)
                return
            if len(vals) != len(t.elts):
                raise PyExc(ValueError)
            for e, x in zip(t.elts, vals):
                self.assign(e, x, env)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.ev(t.value, env), t.attr, v)
        elif isinstance(t, ast.Subscript):
            self.setitem(self.ev(t.value, env), self.ev_slice(t.slice, env), v)
        else:
            raise Unsupported(f'assignment target {type(t).__name__}')

    def unpack(self, v):
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, ListRef):
            x = list_items(v)
            if x is not None:
                return x
        if isinstance(v, ArrRef) and isinstance(v.shape[0], int):
            return [self.getitem(v, i) for i in range(v.shape[0])]
        it = self.iterate(v)
        if isinstance(it, list):
            return it
        raise Unsupported('unpacking of a symbolic sequence')

    def x_Delete(self, n, env):
        for t in n.targets:
            if isinstance(t, ast.Attribute):
                o = self.ev(t.value, env)
                st = dict(o.st)
                if t.attr not in st:
                    raise PyExc(AttributeError)
                del st[t.attr]
                o.put(st)
            elif isinstance(t, ast.Subscript):
                o = self.ev(t.value, env)
                k = self.ev_slice(t.slice, env)
                if isinstance(o, MapRef):
                    if map_get(o, k) is ABSENT:
                        raise PyExc(KeyError)
                    map_del(o, k)
                elif isinstance(o, ListRef) and list_items(o) is not None and isinstance(k, int) and -len(list_items(o)) <= k < len(list_items(o)):
                    items = list_items(o)
                    del items[k]
                    o.put((('items', tuple(items)),) if items else ())
                else:
                    raise Unsupported('del of an element')
            elif isinstance(t, ast.Name):
                env.vars.pop(t.id, None)

    def x_If(self, n, env):
        if truth(self.ev(n.test, env)):
            self.exec_block(n.body, env)
        else:
            self.exec_block(n.orelse, env)

    def x_Match(self, n, env):
        v = self.ev(n.subject, env)
        for c in n.cases:
            if self.matches(c.pattern, v, env) and (c.guard is None or truth(self.ev(c.guard, env))):
                self.exec_block(c.body, env)
                return

    def matches(self, p, v, env):
        if isinstance(p, ast.MatchValue):
            return truth(self.compare(ast.Eq(), v, self.ev(p.value, env)))
        if isinstance(p, ast.MatchSingleton):
            return v is p.value
        if isinstance(p, ast.MatchOr):
            return any(self.matches(q, v, env) for q in p.patterns)
        if isinstance(p, ast.MatchAs):
            if p.pattern is not None and not self.matches(p.pattern, v, env):
                return False
            if p.name is not None:
                self.assign(ast.copy_location(ast.Name(p.name, ast.Store()), p), v, env)
            return True
        if isinstance(p, ast.MatchClass) and not p.patterns:
            if not truth(self.call(self.builtins['isinstance'], [v, self.ev(p.cls, env)])):
                return False
            for a, q in zip(p.kwd_attrs, p.kwd_patterns):
                if not self.matches(q, self.getattr(v, a), env):
                    return False
            return True
        if isinstance(p, ast.MatchSequence) and isinstance(v, tuple) and not any(isinstance(q, ast.MatchStar) for q in p.patterns):
            return len(v) == len(p.patterns) and all(self.matches(q, x, env) for q, x in zip(p.patterns, v))
        raise Unsupported(f'pattern {type(p).__name__}')

    def x_Assert(self, n, env):
        if not truth(self.ev(n.test, env)):
            raise PyExc(AssertionError)

    def x_Import(self, n, env):
        for a in n.names:
            env.vars[a.asname or a.name.split('.')[0]] = self.import_mod(a.name if a.asname else a.name.split('.')[0])

    def import_mod(self, name):
        if name == 'gerabaldi' or name.startswith('gerabaldi.'):
            return self.module(name)
        if name in self.libs:
            return self.libs[name]
        return Poison(f'library {name} has no model')

    def exported(self, m):
        """the names `from m import *` brings in"""
        names = m.env.vars.get('__all__', ABSENT)
        if names is ABSENT:
            return [k for k in m.env.vars if not k.startswith('_')]
        if isinstance(names, ListRef) and all(s[0] == 'items' for s in names.st):
            out = [x for s in names.st for x in s[1]]
            if all(isinstance(x, str) for x in out):
                return out
        raise Unsupported(f'__all__ of {m.name}')

    def x_ImportFrom(self, n, env):
        if n.module == '__future__':
            return
        modname = n.module or ''
        if n.level:
            base = env.module.name.split('.')
            isdir = os.path.isdir(os.path.join(self.repo, *base))
            base = base[: len(base) - n.level + (1 if isdir else 0)]
            modname = '.'.join([*base, modname] if modname else base)
        if modname == 'gerabaldi' or modname.startswith('gerabaldi.'):
            m = self.module(modname)
            for a in n.names:
                if a.name == '*':
                    for k in self.exported(m):
                        env.vars[k] = m.env.vars.get(k, ABSENT)
                        if env.vars[k] is ABSENT:
                            env.vars[k] = Poison(f'{modname}.{k} is not defined')
                    continue
                v = m.env.get(a.name)
                if v is ABSENT:
                    p = os.path.join(self.repo, *modname.split('.'), a.name)
                    if os.path.exists(p + '.py') or os.path.isdir(p):
                        v = self.module(f'{modname}.{a.name}')
                    else:
                        v = Poison(f'{modname}.{a.name} is not defined')
                env.vars[a.asname or a.name] = v
            return
        lib = self.libs.get(modname)
        for a in n.names:
            if lib is not None and a.name in lib.table:
                env.vars[a.asname or a.name] = lib.table[a.name]
            else:
                env.vars[a.asname or a.name] = Poison(f'{modname}.{a.name} has no model')

    def x_FunctionDef(self, n, env):
        env.vars[n.name] = self.decorate(n, self.mkfunc(n, env), env)

    def decorate(self, n, f, env):
        for d in reversed(n.decorator_list):
            name = d.id if isinstance(d, ast.Name) else None
            if name == 'staticmethod':
                f.static = True
            elif name == 'property':
                f = Prop(f)
            elif name == 'classmethod':
                f.static = 'class'
            else:
                raise Unsupported(f'decorator on {n.name}')
        return f

    def mkfunc(self, n, env, cls=None, prefix=None):
        a = n.args
        defaults = [self.ev(d, env) for d in a.defaults]
        kwd = {k.arg: self.ev(d, env) for k, d in zip(a.kwonlyargs, a.kw_defaults) if d is not None}
        name = getattr(n, 'name', '<lambda>')
        short = env.module.name.split('.')[-1]
        if '.cookbook.' in env.module.name:
            short = 'ckb_' + short
        qual = f'{short}.{prefix + "." if prefix else ""}{name}'
        return Func(n, env, env.module, qual, cls, defaults, kwd)

    def x_ClassDef(self, n, env):
        if n.decorator_list or n.keywords:
            raise Unsupported('decorated class')
        bases = [self.ev(b, env) for b in n.bases]
        ns = {}
        c = ClassVal(n.name, bases, ns, env.module)
        cenv = Env(env, env.module)
        for st in n.body:
            if isinstance(st, ast.FunctionDef):
                f = self.mkfunc(st, env, c, n.name)
                try:
                    ns[st.name] = self.decorate(st, f, env)
                except Unsupported as e:
                    ns[st.name] = Poison(str(e))
            elif isinstance(st, (ast.AnnAssign, ast.Expr, ast.Pass)):
                if isinstance(st, ast.AnnAssign) and st.value is not None:
                    ns[st.target.id] = self.ev(st.value, cenv)
            elif isinstance(st, ast.Assign):
                v = self.ev(st.value, cenv)
                for t in st.targets:
                    if isinstance(t, ast.Name):
                        ns[t.id] = v
                        cenv.vars[t.id] = v
            else:
                raise Unsupported(f'class statement {type(st).__name__}')
        env.vars[n.name] = c

    def x_Raise(self, n, env):
        if n.exc is None:
            cur_exc = env.get('$exc')
            if cur_exc is ABSENT:
                raise Unsupported('bare raise')
            raise cur_exc
        if isinstance(n.exc, ast.Call):
            cls = self.ev(n.exc.func, env)
            if isinstance(cls, (ClassVal, type)):
                raise PyExc(cls)
        v = self.ev(n.exc, env)
        if isinstance(v, (ClassVal, type)):
            raise PyExc(v)
        if isinstance(v, PyExc):
            raise v
        raise Unsupported('raise of a value')

    def exc_match(self, cls, handler):
        if isinstance(handler, tuple):
            return any(self.exc_match(cls, h) for h in handler)
        if isinstance(handler, Poison):
            return False
        if isinstance(cls, ClassVal):
            return cls.subclass_of(handler)
        return isinstance(cls, type) and isinstance(handler, type) and issubclass(cls, handler)

    def x_Try(self, n, env):
        try:
            try:
                self.exec_block(n.body, env)
            except PyExc as e:
                for h in n.handlers:
                    if h.type is None or self.exc_match(e.cls, self.ev(h.type, env)):
                        old = env.vars.get('$exc', ABSENT)
                        env.vars['$exc'] = e
                        if h.name:
                            env.vars[h.name] = e
                        try:
                            self.exec_block(h.body, env)
                        finally:
                            if old is ABSENT:
                                env.vars.pop('$exc', None)
                            else:
                                env.vars['$exc'] = old
                        break
                else:
                    raise
            else:
                self.exec_block(n.orelse, env)
        finally:
            import sys

            et = sys.exc_info()[0]
            if n.finalbody and (et is None or issubclass(et, (PyExc, Ret, Brk, Cont))):
                self.exec_block(n.finalbody, env)

    def x_With(self, n, env):
        for it in n.items:
            v = self.ev(it.context_expr, env)
            if isinstance(v, ObjRef) or not getattr(v, 'pyvc_context', False):
                raise Unsupported('context manager')
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, env)
        self.exec_block(n.body, env)

    def x_While(self, n, env):
        rule = self.loop_rules.get('while')
        if rule is not None:
            return rule(self, n, env)
        k = 0
        while True:
            c = self.ev(n.test, env)
            if isinstance(c, Sym):
                cs = z3.simplify(c.t)
                if not (z3.is_true(cs) or z3.is_false(cs)):
                    from .loops import accelerate_while

                    return accelerate_while(self, n, env)
            if not truth(c):
                break
            k += 1
            if k > 300:
                raise Unsupported('while loop does not end')
            try:
                self.exec_block(n.body, env)
            except Brk:
                return
            except Cont:
                continue
        self.exec_block(n.orelse, env)

    def x_For(self, n, env):
        it = self.ev(n.iter, env)
        if isinstance(it, ProdVal):
            return self.exec_block([it.nested(n)], env)
        it = self.iterate(it)
        if not self.run_loop(n, it, env, lambda x, e: self.assign(n.target, x, e), n.body):
            self.exec_block(n.orelse, env)

    def run_loop(self, n, it, env, bind, body):
        """true when the loop is left by break"""
        if isinstance(it, SColl):
            exec_symbolic_loop(self, n, it, env, bind, body)
            return False
        if isinstance(it, Mixed):
            return any(self.run_loop(n, part, env, bind, body) for part in it.parts)
        for x in it:
            bind(x, env)
            try:
                self.exec_block(body, env)
            except Brk:
                return True
            except Cont:
                continue
        return False

    def iterate(self, v):
        """list of concrete elements, an SColl, or Mixed"""
        ops.check_poison(v)
        if isinstance(v, tuple):
            return list(v)
        if isinstance(v, (list, SColl, Mixed)):
            return v
        if isinstance(v, Iter):
            return v.consume()
        if isinstance(v, GenVal):
            return self.iterate(v.to_list())
        if isinstance(v, ListRef):
            x = list_items(v)
            if x is not None:
                return x
            if len(v.st) == 1 or v.kind == 'set':
                return list_coll(v)
            parts = []
            for s in v.st:
                if s[0] == 'items':
                    parts.append(list(s[1]))
                else:
                    sub = ListRef()
                    sub.init = (s,)
                    parts.append(list_coll(sub))
            return Mixed(parts)
        if isinstance(v, MapRef):
            return self.iterate(KeysView(v))
        if isinstance(v, (KeysView, ItemsView, ValuesView)):
            m = v.m
            sym = [L for L in m.st if L[0] not in ('set', 'del')]
            if not sym or concrete_keys(m) is not None:
                ks = concrete_keys(m)
                if isinstance(v, KeysView):
                    return ks
                if isinstance(v, ItemsView):
                    return [(k, map_get(m, k)) for k in ks]
                return [map_get(m, k) for k in ks]
            layers = m.st
            # concrete entries first seen as such, the rest symbolic
            coll = map_coll(m)
            if isinstance(v, KeysView):
                return coll
            f = (lambda k: (k, map_get(None, k, layers))) if isinstance(v, ItemsView) else (lambda k: map_get(None, k, layers))
            return SColl(coll.id, coll.member, coll.sort, f, coll.length, coll.dup)
        if isinstance(v, ArrRef):
            n = v.shape[0]
            if isinstance(n, int):
                return [self.getitem(v, i) for i in range(n)]
            return SColl(f'arr{v.oid}', lambda k: wrap(z3.And(term(k) >= 0, term(k) < n)), 'int', lambda k: self.getitem(v, k), n)
        if isinstance(v, ObjRef):
            r = v.cls.lookup('__iter__')
            if r is not None:
                stub = self.stubs.get('iter:' + v.cls.name)
                if stub:
                    return stub(self, v)
        if isinstance(v, str):
            return list(v)
        if v is None or is_num(v):
            raise PyExc(TypeError)
        raise Unsupported(f'iteration over {type(v).__name__}')

    # ---- expressions ----------------------------------------------------------------------------------------------------
    def ev(self, n, env):
        m = getattr(self, 'e_' + type(n).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(n).__name__} (line {getattr(n, "lineno", "?")})')
        return m(n, env)

    def e_Constant(self, n, env):
        return num(n.value)

    def lookup(self, name, env):
        v = env.get(name)
        if v is ABSENT:
            v = env.module.env.get(name) if env.module else ABSENT
        if v is ABSENT:
            v = self.builtins.get(name, ABSENT)
        if v is ABSENT:
            if hasattr(pybuiltins, name):
                raise Unsupported(f'built-in {name}')
            raise PyExc(NameError, (name,))
        if isinstance(v, Poison):
            raise Unsupported(f'{name}: {v.why}')
        return v

    def e_Name(self, n, env):
        return self.lookup(n.id, env)

    def e_Tuple(self, n, env):
        return tuple(self.star_elts(n.elts, env))

    def star_elts(self, elts, env):
        out = []
        for e in elts:
            if isinstance(e, ast.Starred):
                it = self.iterate(self.ev(e.value, env))
                if not isinstance(it, list):
                    raise Unsupported('unpacking of a symbolic sequence')
                out.extend(it)
            else:
                out.append(self.ev(e, env))
        return out

    def e_List(self, n, env):
        r = ListRef()
        for e in n.elts:
            if isinstance(e, ast.Starred):
                list_extend(r, self.as_segs(self.ev(e.value, env)))
            else:
                list_append(r, self.ev(e, env))
        r.settle()
        return r

    def e_Set(self, n, env):
        return SetRef(self.star_elts(n.elts, env))

    def as_segs(self, v):
        """list segments of an iterable"""
        if isinstance(v, ListRef) and v.kind != 'set':
            return v.st
        it = self.iterate(v)
        if isinstance(it, list):
            return (('items', tuple(it)),) if it else ()
        if isinstance(it, SColl):
            return (('coll', it),)
        out = []
        for p in it.parts:
            out.extend(self.as_segs(p) if not isinstance(p, list) else [('items', tuple(p))])
        return tuple(out)

    def e_Dict(self, n, env):
        m = MapRef()
        for k, v in zip(n.keys, n.values):
            if k is None:
                ops.map_update(m, self.ev(v, env))
            else:
                kk = self.ev(k, env)
                map_set(m, kk, self.ev(v, env))
        m.settle()
        return m

    def e_JoinedStr(self, n, env):
        parts = []
        for v in n.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                if v.format_spec is not None:
                    parts.append(sname('fmt'))
                    continue
                x = self.ev(v.value, env)
                if isinstance(x, (str, SStr)) or (isinstance(x, Sym) and x.ty == T_STR):
                    parts.append(x)
                elif isinstance(x, int) and not isinstance(x, bool):
                    parts.append(str(x))
                else:
                    parts.append(sname('fmt'))
        return SStr(parts).norm()

    def e_Lambda(self, n, env):
        return self.mkfunc(n, env)

    def e_IfExp(self, n, env):
        return self.ev(n.body if truth(self.ev(n.test, env)) else n.orelse, env)

    def e_BoolOp(self, n, env):
        last = None
        for i, x in enumerate(n.values):
            last = self.ev(x, env)
            if i == len(n.values) - 1:
                return last
            t = truth(last)
            if isinstance(n.op, ast.And) and not t:
                return last if not isinstance(last, Sym) or not z3.is_bool(last.t) else False
            if isinstance(n.op, ast.Or) and t:
                return last if not isinstance(last, Sym) or not z3.is_bool(last.t) else True
        return last

    def e_UnaryOp(self, n, env):
        v = self.ev(n.operand, env)
        ops.check_poison(v)
        if isinstance(n.op, ast.Not):
            if isinstance(v, Sym) and z3.is_bool(v.t):
                return lnot(v)
            return not truth(v)
        if isinstance(n.op, ast.USub):
            if isinstance(v, TD):
                return TD(ops.s_neg(v.s))
            return ops.elementwise(ops.s_neg, v)
        if isinstance(n.op, ast.Invert):
            return ops.elementwise(ops.s_not, v, dtype='bool')
        return v

    def e_BinOp(self, n, env):
        a = self.ev(n.left, env)
        b = self.ev(n.right, env)
        return binop(n.op, a, b)

    def e_Compare(self, n, env):
        left = self.ev(n.left, env)
        res = True
        for i, (op, r) in enumerate(zip(n.ops, n.comparators)):
            right = self.ev(r, env)
            c = self.compare(op, left, right)
            if i == len(n.ops) - 1 and res is True:
                return c
            if not truth(c):
                return False
            left = right
        return True

    def compare(self, op, a, b):
        if isinstance(op, (ast.Eq, ast.NotEq)) and isinstance(a, ObjRef) and a.cls.lookup('__eq__') is not None:
            r = self.call(self.getattr(a, '__eq__'), [b], {})
            return r if isinstance(op, ast.Eq) else not truth(r)
        return compare(op, a, b)

    def e_NamedExpr(self, n, env):
        if env.comp:
            raise Unsupported('assignment expression in a comprehension')
        v = self.ev(n.value, env)
        env.vars[n.target.id] = v
        return v

    def e_Starred(self, n, env):
        raise Unsupported('starred expression')

    def comp(self, n, env, add):
        """comprehension as nested loops over a scratch environment"""
        scope = Env(env, env.module)
        scope.comp = True

        def level(i, e):
            if i == len(n.generators):
                add(e)
                return
            g = n.generators[i]
            it = self.iterate(self.ev(g.iter, e))
            body = [CompBody(lambda e2: level(i + 1, e2), g.ifs)]
            self.run_loop(g, it, e, lambda x, e2: self.assign(g.target, x, e2), body)

        level(0, scope)

    def x_CompBody(self, n, env):
        for c in n.ifs:
            if not truth(self.ev(c, env)):
                return
        n.fn(env)

    def e_ListComp(self, n, env):
        r = ListRef()
        self.comp(n, env, lambda e: list_append(r, self.ev(n.elt, e)))
        return r

    def e_SetComp(self, n, env):
        r = SetRef()
        self.comp(n, env, lambda e: list_append(r, self.ev(n.elt, e)))
        return r

    def e_ValueExpr(self, n, env):
        return n.v

    def e_GeneratorExp(self, n, env):
        return GenVal(self, n, env)

    def e_DictComp(self, n, env):
        m = MapRef()

        def add(e):
            k = self.ev(n.key, e)
            map_set(m, k, self.ev(n.value, e))

        self.comp(n, env, add)
        return m

    def e_Attribute(self, n, env):
        return self.getattr(self.ev(n.value, env), n.attr)

    def e_Subscript(self, n, env):
        return self.getitem(self.ev(n.value, env), self.ev_slice(n.slice, env))

    def ev_slice(self, s, env):
        if isinstance(s, ast.Slice):
            return slice(*[None if x is None else self.ev(x, env) for x in (s.lower, s.upper, s.step)])
        if isinstance(s, ast.Tuple):
            return tuple(self.ev_slice(e, env) for e in s.elts)
        return self.ev(s, env)

    def e_Slice(self, n, env):
        return self.ev_slice(n, env)

    def e_Call(self, n, env):
        f = self.ev(n.func, env) if not (isinstance(n.func, ast.Name) and n.func.id == 'super') else None
        if isinstance(n.func, ast.Name) and n.func.id == 'super':
            s = env.get('$self')
            c = env.get('$class')
            return Super(s, c)
        if isinstance(f, Dropped):
            return None
        args = []
        for a in n.args:
            if isinstance(a, ast.Starred):
                it = self.iterate(self.ev(a.value, env))
                if not isinstance(it, list):
                    raise Unsupported('call with symbolic positional arguments')
                args.extend(it)
            else:
                args.append(self.ev(a, env))
        kwargs = {}
        kwmap = None
        for k in n.keywords:
            if k.arg is None:
                m = self.ev(k.value, env)
                if not isinstance(m, MapRef):
                    raise Unsupported('** of a non-dictionary')
                ks = concrete_keys(m) if all(L[0] in ('set', 'del', 'copy') for L in m.st) else None
                if ks is not None and all(isinstance(x, str) for x in ks):
                    for x in ks:
                        kwargs[x] = map_get(m, x)
                else:
                    if kwmap is not None:
                        raise Unsupported('two symbolic ** arguments')
                    kwmap = m
            else:
                kwargs[k.arg] = self.ev(k.value, env)
        return self.call(f, args, kwargs, kwmap, n)

    # ---- calls -------------------------------------------------------------------------------------------------------
    def call(self, f, args, kwargs=None, kwmap=None, node=None):
        kwargs = kwargs or {}
        ops.check_poison(f)
        if isinstance(f, Bound):
            return self.call_func(f.func, [f.self_, *args], kwargs, kwmap)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs, kwmap)
        if isinstance(f, Builtin):
            if kwmap is not None:
                raise Unsupported(f'symbolic ** argument to {f.name}')
            return f.fn(self, *args, **kwargs)
        if isinstance(f, ClassVal):
            return self.instantiate(f, args, kwargs, kwmap)
        if isinstance(f, TypeV):
            return self.builtin_type(f, args, kwargs, kwmap)
        if isinstance(f, type) and issubclass(f, BaseException):
            return PyExc(f)
        if hasattr(f, 'pyvc_call'):
            return f.pyvc_call(self, args, kwargs, kwmap)
        if isinstance(f, ObjRef):
            r = f.cls.lookup('__call__')
            if r:
                return self.call_func(r[0], [f, *args], kwargs, kwmap)
        if isinstance(f, Dropped):
            return None
        raise Unsupported(f'call of {f!r}')

    def builtin_type(self, t, args, kwargs, kwmap):
        b = self.builtins.get('type:' + t.names[0])
        if b is None:
            raise Unsupported(f'constructor {t.names[0]}')
        if kwmap is not None:
            if t.names[0] == 'dict' and not args and not kwargs:
                return MapRef(layers=kwmap.st)
            raise Unsupported('symbolic ** argument')
        return b.fn(self, *args, **kwargs)

    def instantiate(self, cls, args, kwargs, kwmap=None):
        if cls.pybase() is not None and issubclass(cls.pybase(), BaseException):
            return PyExc(cls)
        stub = self.stubs.get('new:' + cls.name)
        if stub is not None:
            return stub(self, cls, args, kwargs)
        o = ObjRef(cls)
        r = cls.lookup('__init__')
        if r is not None:
            self.call_func(r[0], [o, *args], kwargs, kwmap)
        return o

    def call_func(self, f, args, kwargs=None, kwmap=None):
        ops.check_poison(f)
        kwargs = dict(kwargs or {})
        if f.static == 'class':
            raise Unsupported('class method')
        q = f.qualname
        if q in self.stubs and q not in self.bypass:
            return self.stubs[q](self, f, args, kwargs, kwmap)
        self.bypass.discard(q)
        self.called[q] = self.called.get(q, 0) + 1
        a = f.node.args
        env = Env(f.env, f.module)
        names = [x.arg for x in [*a.posonlyargs, *a.args]]
        if len(args) > len(names) and a.vararg is None:
            raise PyExc(TypeError)
        for name, v in zip(names, args):
            env.vars[name] = v
        if a.vararg is not None:
            env.vars[a.vararg.arg] = tuple(args[len(names) :])
        extra = {}
        for k, v in kwargs.items():
            if k in names or k in [x.arg for x in a.kwonlyargs]:
                if k in env.vars:
                    raise PyExc(TypeError)
                env.vars[k] = v
            elif a.kwarg is not None:
                extra[k] = v
            else:
                raise PyExc(TypeError)
        if kwmap is not None:
            # symbolic keyword map: named parameters are looked up in it, the rest goes to **kwargs
            taken = []
            for name in [*names, *[x.arg for x in a.kwonlyargs]]:
                if name not in env.vars:
                    v = map_get(kwmap, name)
                    if v is not ABSENT:
                        env.vars[name] = v
                        taken.append(name)
            if a.kwarg is None:
                raise Unsupported('symbolic ** argument to a fixed signature')
            layers = [*kwmap.st, *[('del', t) for t in taken], *[('set', k, v) for k, v in extra.items()]]
            env.vars[a.kwarg.arg] = MapRef(layers=layers)
        elif a.kwarg is not None:
            env.vars[a.kwarg.arg] = MapRef(extra.items())
        nd = len(f.defaults)
        for name, d in zip(names[len(names) - nd :], f.defaults):
            if name not in env.vars:
                env.vars[name] = d
        for x in a.kwonlyargs:
            if x.arg not in env.vars:
                if x.arg not in f.kwdefaults:
                    raise PyExc(TypeError)
                env.vars[x.arg] = f.kwdefaults[x.arg]
        for name in names:
            if name not in env.vars:
                raise PyExc(TypeError)
        if f.cls is not None and not f.static and args:
            env.vars['$self'] = args[0]
            env.vars['$class'] = f.cls
        run = cur()
        run.depth += 1
        if run.depth > 60:
            raise Unsupported('call depth')
        try:
            if isinstance(f.node, ast.Lambda):
                return self.ev(f.node.body, env)
            self.exec_block(f.node.body, env)
            return None
        except Ret as r:
            return r.v
        finally:
            run.depth -= 1

    def call_real(self, qual, args, kwargs=None):
        """call the real function under verification (its own contract is not used for this call)"""
        f = self.resolve(qual)
        ops.check_poison(f)
        if isinstance(f, Prop):
            f = f.func
        self.bypass.add(f.qualname)
        return self.call_func(f, args, kwargs)

    # ---- attributes and items --------------------------------------------------------------------------------------
    def getattr(self, o, name, default=ABSENT):
        ops.check_poison(o)
        if isinstance(o, NS):
            if isinstance(name, str) and name in o.table:
                return o.table[name]
            raise Unsupported(f'{o.name}.{name} has no model')
        if isinstance(o, Module):
            v = o.env.get(name)
            if v is ABSENT:
                raise Unsupported(f'{o.name}.{name}')
            return v
        if isinstance(o, Dropped):
            return o
        if isinstance(o, ObjRef):
            v = self.obj_attr(o, name)
            if v is not ABSENT:
                return v
            if isinstance(name, str):
                r = o.cls.lookup(name)
                if r is not None:
                    v = r[0]
                    if isinstance(v, Func):
                        return v if v.static else Bound(o, v)
                    if isinstance(v, Prop):
                        return self.call_func(v.func, [o])
                    return v
                if name == '__class__':
                    return o.cls
                if name == '__dict__':
                    if o.cls.lookup('__slots__') is not None:
                        raise Unsupported('__dict__ of a class with slots')
                    return ObjDict(o)
            if default is not ABSENT:
                return default
            r = o.cls.lookup('__getattr__')
            if r is not None:
                return self.call_func(r[0], [o, name])
            raise PyExc(AttributeError, (name,))
        if isinstance(o, Super):
            c = o.cls
            for b in c.bases:
                if isinstance(b, ClassVal):
                    r = b.lookup(name)
                    if r is not None:
                        return r[0] if r[0].static else Bound(o.self_, r[0])
            if name == '__setattr__':
                return Builtin('object.__setattr__', lambda ip, k, v: ip.raw_setattr(o.self_, k, v))
            if name == '__init__':
                return Builtin('object.__init__', lambda ip, *a, **k: None)
            raise PyExc(AttributeError)
        if isinstance(o, ClassVal):
            if name == '__name__':
                return o.name
            r = o.lookup(name)
            if r is None:
                raise PyExc(AttributeError)
            return r[0]
        if hasattr(o, 'pyvc_getattr'):
            return o.pyvc_getattr(self, name)
        from .lib import method

        r = method(self, o, name)
        if r is ABSENT:
            if default is not ABSENT:
                return default
            raise PyExc(AttributeError, (name,))
        return r

    def obj_attr(self, o, name):
        st = o.st
        if isinstance(name, str):
            if name in st:
                return st[name]
            for k in st:
                if isinstance(k, tuple) and name.startswith(k[0]) and name.endswith(k[1]) and len(name) > len(k[0]) + len(k[1]):
                    v = map_get(st[k], name[len(k[0]) : len(name) - len(k[1])])
                    if v is not ABSENT:
                        return v
            return ABSENT
        fk, hole = self.family(name)
        for k in st:
            if k == fk:
                v = map_get(st[k], hole)
                if v is not ABSENT:
                    return v
            elif isinstance(k, str) and k.startswith(fk[0]) and k.endswith(fk[1]) and len(k) > len(fk[0]) + len(fk[1]):
                if key_eq_decide(k[len(fk[0]) : len(k) - len(fk[1])], hole):
                    return st[k]
        return ABSENT

    def family(self, name):
        if isinstance(name, SStr):
            h = name.holes()
            if len(h) == 1:
                i = [j for j, p in enumerate(name.parts) if not isinstance(p, str)][0]
                return (''.join(name.parts[:i]), ''.join(name.parts[i + 1 :])), h[0]
        if isinstance(name, Sym):
            return ('', ''), name
        raise Unsupported(f'attribute name {name!r}')

    def setattr(self, o, name, v):
        if isinstance(o, ObjRef):
            r = o.cls.lookup('__setattr__')
            if r is not None:
                return self.call_func(r[0], [o, name, v])
            return self.raw_setattr(o, name, v)
        if isinstance(o, Dropped):
            return None
        if hasattr(o, 'pyvc_setattr'):
            return o.pyvc_setattr(self, name, v)
        raise Unsupported(f'attribute assignment on {type(o).__name__}')

    def raw_setattr(self, o, name, v):
        st = dict(o.st)
        if isinstance(name, str):
            st[name] = v
            o.put(st)
            return
        fk, hole = self.family(name)
        if fk not in st:
            st[fk] = MapRef(label=o.label)
            st[fk].region = o.region
            o.put(st)
        map_set(st[fk], hole, v)

    def getitem(self, o, k):
        from .lib import getitem

        return getitem(self, o, k)

    def setitem(self, o, k, v):
        from .lib import setitem

        return setitem(self, o, k, v)


class CompBody(ast.stmt):
    _fields = ()

    def __init__(self, fn, ifs):
        self.fn, self.ifs = fn, ifs
        self.lineno = 0


class Mixed:
    """concatenation of concrete and symbolic parts of an iterable"""

    def __init__(self, parts):
        self.parts = parts


class Iter:
    """an iterator: what it yields, and how often something was taken from it (a list in the heap, so that loops see it change)"""

    def __init__(self, it):
        self.it, self.taken = it, ListRef()

    def consume(self):
        n = list_items(self.taken)
        if n is None:
            raise Unsupported('an iterator consumed in a loop')
        if isinstance(self.it, list):
            list_append(self.taken, None)
            if n and n[-1] is None:
                return []
            return self.it[len(n):]
        if n:
            raise Unsupported('an iterator consumed twice')
        list_append(self.taken, None)
        return self.it

    def next(self):
        n = list_items(self.taken)
        if n is None or not isinstance(self.it, list):
            raise Unsupported('next() of an iterator over a symbolic collection')
        if (n and n[-1] is None) or len(n) >= len(self.it):
            return ABSENT
        list_append(self.taken, True)
        return self.it[len(n)]


class GenVal:
    """generator expression, consumed by all/any/sum/list/..."""

    def __init__(self, ip, n, env):
        self.ip, self.n, self.env, self.taken = ip, n, env, ListRef()

    def once(self):
        """a generator yields its elements once"""
        n = list_items(self.taken)
        if n is None or n:
            raise Unsupported('a generator consumed twice')
        list_append(self.taken, None)

    def to_list(self):
        self.once()
        r = ListRef()
        self.ip.comp(self.n, self.env, lambda e: list_append(r, self.ip.ev(self.n.elt, e)))
        return r

    def first(self):
        """its first element (ABSENT: there is none); nothing is evaluated beyond it"""
        self.once()
        n, ip = self.n, self.ip
        scope = Env(self.env, self.env.module)
        scope.comp = True
        if len(n.generators) != 1:
            raise Unsupported('next() of a nested generator')
        g = n.generators[0]
        it = ip.iterate(ip.ev(g.iter, scope))
        if not isinstance(it, list):
            raise Unsupported('next() of a generator over a symbolic collection')
        for x in it:
            ip.assign(g.target, x, scope)
            if all(truth(ip.ev(c, scope)) for c in g.ifs):
                return ip.ev(n.elt, scope)
        return ABSENT


class ProdVal:
    """itertools.product of symbolic collections: a loop over it is the nested loops over its factors, outermost first"""

    def __init__(self, its):
        self.its = its

    def nested(self, n):
        target, body = n.target, n.body
        if isinstance(target, ast.Name):
            # the index as a whole: one variable per factor, and the tuple of them
            elts = [ast.Name(f'{target.id}.{k}', ast.Store()) for k in range(len(self.its))]
            whole = ast.Assign([target], ast.Tuple([ast.Name(x.id, ast.Load()) for x in elts], ast.Load()))
            for x in ast.walk(whole):
                ast.copy_location(x, n)
            target, body = ast.copy_location(ast.Tuple(elts, ast.Store()), n), [whole, *body]
        if not isinstance(target, ast.Tuple) or len(target.elts) != len(self.its) or n.orelse or leaves_loop(n.body):
            raise Unsupported('loop over a product')
        for t, it in reversed(list(zip(target.elts, self.its, strict=True))):
            body = [ast.copy_location(ast.For(target=t, iter=ValueExpr(it), body=body, orelse=[], lineno=n.lineno), n)]
        return body[0]


class ValueExpr(ast.expr):
    _fields = ()

    def __init__(self, v):
        self.v = v
        self.lineno = 0


def leaves_loop(body):
    """does a break belong to the loop with this body?"""
    for s in body:
        if isinstance(s, ast.Break):
            return True
        if isinstance(s, (ast.For, ast.While, ast.FunctionDef, ast.ClassDef)):
            if leaves_loop(getattr(s, 'orelse', [])):
                return True
            continue
        for f in ('body', 'orelse', 'finalbody'):
            if leaves_loop(getattr(s, f, [])):
                return True
        if any(leaves_loop(h.body) for h in getattr(s, 'handlers', [])) or any(leaves_loop(c.body) for c in getattr(s, 'cases', [])):
            return True
    return False


class ObjDict:
    """the attributes of an object as a dictionary (no __setattr__ is called)"""

    def __init__(self, o):
        self.o = o

    def pyvc_getattr(self, ip, name):
        o = self.o

        def get(ip, k, d=None):
            v = ip.obj_attr(o, k)
            return d if v is ABSENT else v

        def setdefault(ip, k, d=None):
            v = ip.obj_attr(o, k)
            if v is ABSENT:
                ip.raw_setattr(o, k, d)
                return d
            return v

        if name in ('get', 'setdefault'):
            return Builtin(f'__dict__.{name}', {'get': get, 'setdefault': setdefault}[name])
        raise Unsupported(f'__dict__.{name}')

    def pyvc_getitem(self, ip, k):
        v = ip.obj_attr(self.o, k)
        if v is ABSENT:
            raise PyExc(KeyError)
        return v

    def pyvc_setitem(self, ip, k, v):
        ip.raw_setattr(self.o, k, v)

    def pyvc_contains(self, x):
        if not isinstance(x, str):
            raise Unsupported('membership in __dict__')
        return x in self.o.st
