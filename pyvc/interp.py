"""Symbolic interpreter for Python functions read from the real source."""
import ast
import re
import os
import z3
from core import *      # noqa: F403
import core

MAX_INLINE = 24
UNROLL = 64


class ModInfo:
    def __init__(self, name, path, program):
        self.name = name
        self.path = path
        self.program = program
        with open(path, encoding='utf-8') as f:
            self.src = f.read()
        self.tree = ast.parse(self.src)
        self.defs = {}
        self.busy = set()
        self._scan(self.tree.body)

    def _scan(self, body):
        for n in body:
            if isinstance(n, (ast.FunctionDef, ast.ClassDef)):
                self.defs.setdefault(n.name, []).append(n)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    for x in ast.walk(t):
                        if isinstance(x, ast.Name):
                            self.defs.setdefault(x.id, []).append(n)
            elif isinstance(n, ast.AnnAssign) and n.value is not None:
                if isinstance(n.target, ast.Name):
                    self.defs.setdefault(n.target.id, []).append(n)
            elif isinstance(n, (ast.Import, ast.ImportFrom)):
                for a in n.names:
                    nm = a.asname or a.name.split('.')[0]
                    self.defs.setdefault(nm, []).append((n, a))
            elif isinstance(n, (ast.If,)):
                self._scan(n.body)
                self._scan(n.orelse)
            elif isinstance(n, ast.Try):
                self._scan(n.body)
                self._scan(n.orelse)
                self._scan(n.finalbody)


class ModV(V):
    def __init__(self, mod):
        self.mod = mod


class ExtV(V):
    """External module or object known only by its dotted name."""

    def __init__(self, name):
        self.name = name

    def __repr__(self):
        return f'Ext({self.name})'


class ClassInfo(V):
    def __init__(self, node, mod, outer=''):
        self.node = node
        self.mod = mod
        self.name = node.name
        self.qual = f'{mod.name}:{outer}{node.name}'
        self.methods = {}
        self.assigns = {}
        self.cache = {}
        for n in node.body:
            if isinstance(n, ast.FunctionDef):
                self.methods[n.name] = n
                self.assigns.pop(n.name, None)
            elif isinstance(n, ast.Assign):
                for t in n.targets:
                    if isinstance(t, ast.Name):
                        self.assigns[t.id] = n.value
                        self.methods.pop(t.id, None)
            elif isinstance(n, ast.AnnAssign) and n.value is not None and \
                    isinstance(n.target, ast.Name):
                self.assigns[n.target.id] = n.value
        self._bases = None

    def __repr__(self):
        return f'Class({self.name})'


class Func(V):
    def __init__(self, node, mod, qual, parent=None, cls=None):
        self.node = node
        self.mod = mod
        self.qual = qual
        self.parent = parent        # enclosing frame id
        self.cls = cls
        self.defaults = None        # evaluated defaults for closures
        self.kwdefaults = None

    def __repr__(self):
        return f'Func({self.qual})'


class BMeth(V):
    def __init__(self, self_v, fn):
        self.self_v = self_v
        self.fn = fn

    def __repr__(self):
        return f'BMeth({self.fn})'


class PropV(V):
    def __init__(self, fn):
        self.fn = fn


class SuperV(V):
    def __init__(self, cls, self_v):
        self.cls = cls
        self.self_v = self_v


class GenV(V):
    """A generator or iterator already turned into a list, with a position."""

    def __init__(self, oid):
        self.oid = oid      # state.objs[oid] = {'list': IterV, 'pos': Sym}


class Frame:
    def __init__(self, fid, func, mod, parent):
        self.fid = fid
        self.func = func
        self.mod = mod
        self.parent = parent
        self.globals = set()
        self.nonlocals = set()
        self.locals = set()
        self.loops = 0
        self.exc = None


BUILTIN_EXC = {
    'BaseException': None, 'Exception': 'BaseException',
    'ArithmeticError': 'Exception', 'ZeroDivisionError': 'ArithmeticError',
    'OverflowError': 'ArithmeticError', 'LookupError': 'Exception',
    'KeyError': 'LookupError', 'IndexError': 'LookupError',
    'TypeError': 'Exception', 'ValueError': 'Exception',
    'AttributeError': 'Exception', 'NameError': 'Exception',
    'UnboundLocalError': 'NameError', 'AssertionError': 'Exception',
    'NotImplementedError': 'RuntimeError', 'RuntimeError': 'Exception',
    'StopIteration': 'Exception', 'ImportError': 'Exception',
    'ModuleNotFoundError': 'ImportError', 'RecursionError': 'RuntimeError',
    'ArbitraryError': 'BaseException',
}


class Program:
    def __init__(self, root):
        self.root = root
        self.mods = {}
        self.ext = {}
        self.overrides = {}     # 'mod:name' -> V replacing a global
        self.structs = {}       # class qualname -> StructCT
        self.contracts = {}
        self.attr_types = {}

    def module(self, name):
        if name not in self.mods:
            p = os.path.join(self.root, *name.split('.'))
            if os.path.isfile(p + '.py'):
                p += '.py'
            elif os.path.isfile(os.path.join(p, '__init__.py')):
                p = os.path.join(p, '__init__.py')
            else:
                self.mods[name] = None
                return None
            try:
                self.mods[name] = ModInfo(name, p, self)
            except (SyntaxError, UnicodeDecodeError) as e:
                raise Unsupported(f'{name}: {e}')
        return self.mods[name]


def assigned_names(node):
    """Names bound in a function body (not in nested functions)."""
    out = set()

    def walk(n, top=False):
        if isinstance(n, (ast.FunctionDef, ast.ClassDef)) and not top:
            out.add(n.name)
            return
        if isinstance(n, ast.Lambda) and not top:
            return
        if isinstance(n, (ast.ListComp, ast.SetComp, ast.GeneratorExp,
                          ast.DictComp)):
            # own scope; only walrus targets and nested expressions matter
            for x in ast.walk(n):
                if isinstance(x, ast.NamedExpr):
                    out.add(x.target.id)
            return
        if isinstance(n, ast.Name) and isinstance(n.ctx, (ast.Store, ast.Del)):
            out.add(n.id)
        if isinstance(n, ast.ExceptHandler) and n.name:
            out.add(n.name)
        if isinstance(n, (ast.Import, ast.ImportFrom)):
            for a in n.names:
                out.add(a.asname or a.name.split('.')[0])
        for c in ast.iter_child_nodes(n):
            walk(c)
    if isinstance(node, ast.Lambda):
        walk(node.body)
    else:
        for s in node.body:
            walk(s)
    return out


def has_yield(node):
    def walk(n):
        if isinstance(n, (ast.Yield, ast.YieldFrom)):
            return True
        if isinstance(n, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
            return False
        return any(walk(c) for c in ast.iter_child_nodes(n))
    if isinstance(node, ast.Lambda):
        return walk(node.body)
    return any(walk(c) for c in node.body)


class LoopCtx:
    """What a loop invariant template sees."""

    def __init__(self, interp, frame, node, it, i, s0):
        self.interp = interp
        self.ctx = interp.ctx
        self.frame = frame
        self.node = node
        self.it = it
        self.i = i
        self.s0 = s0            # state at loop entry
        self.mod = None
        self.havoc_state = None

    @property
    def s(self):
        return self.ctx.state

    def env(self, name):
        return self.s.envs[self.frame.fid].get(name)

    def env0(self, name):
        return self.s0.envs[self.frame.fid].get(name)

    def done(self, x):
        """x was visited already (loops over enumerated sets)."""
        return z3.And(self.it.mem(x), self.it.idx(x) < self.i)

    def vars(self, pred):
        """Locals of the frame (in a fixed order) whose value fits pred."""
        e = self.s.envs[self.frame.fid]
        for k in sorted(e):
            if pred(e[k]):
                yield k, e[k]

    def lists(self, elem=None):
        return self.vars(lambda v: isinstance(v, Ref) and
                         isinstance(v.ct, ListCT) and
                         (elem is None or v.ct.elem == elem))


class Interp:
    def __init__(self, ctx):
        self.ctx = ctx
        ctx.interp = self
        import models
        self.m = models
        self.call_depth = 0
        self.dry = 0

    # ------------------------------------------------------------ names

    def module_global(self, mod, name):
        ctx = self.ctx
        key = f'{mod.name}:{name}'
        if key in ctx.state.globals:
            return ctx.state.globals[key]
        if key in ctx.program.overrides:
            v = ctx.program.overrides[key]
            return v(ctx) if callable(v) else v
        if name not in mod.defs:
            return None
        ent = mod.defs[name]
        last = ent[-1]
        if isinstance(last, ast.FunctionDef):
            return Func(last, mod, f'{mod.name}:{name}')
        if isinstance(last, ast.ClassDef):
            cache = mod.__dict__.setdefault('classes', {})
            if name not in cache:
                cache[name] = ClassInfo(last, mod)
            return cache[name]
        if isinstance(last, tuple):
            return self.do_import(mod, last[0], last[1])
        # assignments: evaluate lazily, in order, cached per path
        if key in mod.busy:
            raise Unsupported(f'cyclic module constant {key}')
        mod.busy.add(key)
        try:
            v = self.eval_module_assign(mod, name, ent)
        finally:
            mod.busy.discard(key)
        ctx.state.globals[key] = v
        return v

    def eval_module_assign(self, mod, name, ent):
        # the last assignment wins unless it refers to itself
        node = ent[-1]
        fr = self.new_frame(None, mod, None)
        if any(isinstance(x, ast.Name) and x.id == name and
               isinstance(x.ctx, ast.Load) for x in ast.walk(node.value)) \
                and len(ent) > 1 and not isinstance(ent[-2], (
                    ast.FunctionDef, ast.ClassDef)):
            prev = ent[-2]
            if isinstance(prev, tuple):
                pv = self.do_import(mod, prev[0], prev[1])
            else:
                pv = self.eval(prev.value, fr)
            self.ctx.state.globals[f'{mod.name}:{name}'] = pv
            v = self.eval(node.value, fr)
            return v
        v = self.eval(node.value, fr)
        if isinstance(node, ast.Assign) and not isinstance(
                node.targets[0], ast.Name):
            raise Unsupported('module level unpacking')
        return v

    def do_import(self, mod, node, alias):
        if isinstance(node, ast.Import):
            full = alias.name if alias.asname else alias.name.split('.')[0]
            m = self.ctx.program.module(full) if full.startswith('zope.index') \
                else None
            return ModV(m) if m else self.m.external(self, full)
        base = node.module or ''
        if node.level:
            parts = mod.name.split('.')
            base = '.'.join(parts[:-node.level] + ([base] if base else []))
        if base.startswith('zope.index'):
            m = self.ctx.program.module(base)
            if m is not None:
                if alias.name in m.defs:
                    return self.module_global(m, alias.name)
            sub = self.ctx.program.module(base + '.' + alias.name)
            if sub is not None:
                return ModV(sub)
            return self.m.external(self, base + '.' + alias.name)
        return self.m.external(self, base + '.' + alias.name)

    def new_frame(self, func, mod, parent):
        self.ctx.frame_ctr += 1
        fr = Frame(self.ctx.frame_ctr, func, mod, parent)
        self.ctx.state.envs[fr.fid] = {}
        return fr

    def lookup(self, name, fr, node=None):
        f = fr
        if name not in fr.globals:
            while f is not None:
                env = self.ctx.state.envs.get(f.fid)
                if env is not None and name in env:
                    return env[name]
                if f is fr and name in f.locals and name not in f.nonlocals:
                    self.raise_('UnboundLocalError')
                f = f.parent
        v = self.module_global(fr.mod, name)
        if v is not None:
            return v
        if name in BUILTIN_EXC:
            return ExtV('builtins.' + name)
        v = self.m.builtin(self, name)
        if v is not None:
            return v
        self.raise_('NameError')

    def store_name(self, name, v, fr):
        if name in fr.globals:
            self.ctx.state.globals[f'{fr.mod.name}:{name}'] = v
            return
        if name in fr.nonlocals:
            f = fr.parent
            while f is not None:
                env = self.ctx.state.envs[f.fid]
                if name in env or name in f.locals:
                    env[name] = v
                    return
                f = f.parent
        self.ctx.state.envs[fr.fid][name] = v

    def raise_(self, name, *args):
        raise PyRaise(ExcV(name, args), self.ctx.line)

    # ------------------------------------------------------------ classes

    def bases(self, cls):
        if cls._bases is None:
            out = []
            for b in cls.node.bases:
                fr = self.new_frame(None, cls.mod, None)
                try:
                    v = self.eval(b, fr)
                except Unsupported:
                    v = ExtV(ast.unparse(b))
                out.append(v)
            cls._bases = out
        return cls._bases

    def mro(self, cls):
        out = [cls]
        for b in self.bases(cls):
            if isinstance(b, ClassInfo):
                for c in self.mro(b):
                    if c in out:
                        out.remove(c)
                    out.append(c)
        return out

    def ext_bases(self, cls):
        out = set()
        for c in self.mro(cls):
            for b in self.bases(c):
                if isinstance(b, ExtV):
                    out.add(b.name)
        return out

    def is_persistent(self, cls):
        return any(n.endswith('Persistent') for n in self.ext_bases(cls))

    def class_attr(self, cls, name, own=False):
        for c in ([cls] if own else self.mro(cls)):
            if name in c.methods:
                node = c.methods[name]
                fn = Func(node, c.mod, f'{c.qual}.{name}', cls=c)
                for d in node.decorator_list:
                    dn = ast.unparse(d)
                    if dn == 'property':
                        return PropV(fn)
                    if dn == 'staticmethod':
                        return ('static', fn)
                    if dn == 'classmethod':
                        return ('class', fn)
                    raise Unsupported('decorator ' + dn)
                return fn
            if name in c.assigns:
                okey = f'{c.qual}.{name}'
                if okey in self.ctx.program.overrides:
                    v = self.ctx.program.overrides[okey]
                    return v(self.ctx) if callable(v) else v
                key = '%' + okey
                g = self.ctx.state.globals
                if key not in g:
                    fr = self.new_frame(None, c.mod, None)
                    # names of the class body are visible while it executes
                    env = self.ctx.state.envs[fr.fid]
                    for x in ast.walk(c.assigns[name]):
                        if isinstance(x, ast.Name) and x.id != name and (
                                x.id in c.methods or x.id in c.assigns):
                            v = self.class_attr(c, x.id, own=True)
                            if v is not None:
                                env[x.id] = v
                    g[key] = self.eval(c.assigns[name], fr)
                return g[key]
        return None

    def attr_type(self, cls, name):
        for c in self.mro(cls):
            ty = self.ctx.program.attr_types.get((c.name, name))
            if ty is not None:
                return ty
        return None

    def subclass_of(self, cls, names):
        return any(c.name in names or c.qual in names for c in self.mro(cls))

    # ------------------------------------------------------------ calls

    def call(self, f, args, kwargs=None):
        kwargs = kwargs or {}
        ctx = self.ctx
        if isinstance(f, Builtin):
            return f.fn(self, args, kwargs)
        if isinstance(f, BMeth):
            return self.call(f.fn, [f.self_v] + list(args), kwargs)
        if isinstance(f, Func):
            return self.call_func(f, args, kwargs)
        if isinstance(f, ClassInfo):
            return self.instantiate(f, args, kwargs)
        if isinstance(f, ExtV):
            return self.m.call_external(self, f, args, kwargs)
        if isinstance(f, Obj):
            c = self.class_attr(f.cls, '__call__')
            if c is not None:
                return self.call(c, [f] + list(args), kwargs)
        if isinstance(f, Ref):
            return self.m.call_ref(self, f, args, kwargs)
        if hasattr(f, 'call_v'):
            return f.call_v(self, args, kwargs)
        if isinstance(f, Const):
            self.raise_('TypeError')
        raise Unsupported(f'call of {f}')

    def instantiate(self, cls, args, kwargs):
        ctx = self.ctx
        if any(b.startswith('builtins.') for b in self.ext_bases(cls)):
            return ExcV(cls.name, args)      # exception classes
        c = ctx.program.contracts.get(cls.qual)
        if c is not None:
            ctx.used_contracts.add(cls.qual)
            return c.call(self, args, kwargs)
        st = ctx.program.structs.get(cls.qual)
        if st is not None:
            r = ctx.alloc(st)
            r = Ref(st, r.t, cls=cls.name)
            ctx.wr(r.t, f'{st.name}.cls', z3.IntSort(),
                   z3.IntVal(st.classes.index(cls.name) + 1))
            init = self.class_attr(cls, '__init__')
            if init is not None:
                self.call(init, [r] + list(args), kwargs)
            hook = getattr(st, 'on_create', None)
            if hook:
                hook(self, r, cls)
            return r
        ctx.oid_ctr += 1
        o = Obj(cls, ctx.oid_ctr)
        ctx.state.objs[o.oid] = {}
        init = self.class_attr(cls, '__init__')
        if init is not None:
            self.call(init, [o] + list(args), kwargs)
        elif args or kwargs:
            self.raise_('TypeError')
        return o

    def bind_args(self, f, args, kwargs, fr):
        a = f.node.args
        env = {}
        params = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        if len(args) > len(params) and not a.vararg:
            self.raise_('TypeError')
        for n, v in zip(params, args):
            env[n] = v
        if a.vararg:
            env[a.vararg.arg] = Tup(args[len(params):])
        kw = dict(kwargs)
        names = params + [x.arg for x in a.kwonlyargs]
        for k in list(kw):
            if k in names:
                if k in env:
                    self.raise_('TypeError')
                env[k] = kw.pop(k)
        if kw:
            if a.kwarg:
                raise Unsupported('**kwargs')
            self.raise_('TypeError')
        nd = len(a.defaults)
        for i, d in enumerate(a.defaults):
            n = params[len(params) - nd + i]
            if n not in env:
                if f.defaults is not None:
                    env[n] = f.defaults[i]
                else:
                    env[n] = self.eval_default(f, d, fr)
        for x, d in zip(a.kwonlyargs, a.kw_defaults):
            if x.arg not in env and d is not None:
                env[x.arg] = self.eval_default(f, d, fr)
        for n in names:
            if n not in env:
                self.raise_('TypeError')
        return env

    def eval_default(self, f, d, fr):
        g = self.new_frame(None, f.mod, f.parent)
        if f.cls is not None:
            # class scope
            for x in ast.walk(d):
                if isinstance(x, ast.Name):
                    v = self.class_attr(f.cls, x.id, own=True)
                    if v is not None:
                        self.ctx.state.envs[g.fid][x.id] = v
        return self.eval(d, g)

    def call_func(self, f, args, kwargs, force_inline=False):
        ctx = self.ctx
        c = ctx.program.contracts.get(f.qual)
        if c is not None and not force_inline and c.applicable(self, args,
                                                               kwargs):
            ctx.used_contracts.add(f.qual)
            return c.call(self, args, kwargs)
        if self.call_depth > MAX_INLINE:
            raise Unsupported(f'recursion without contract: {f.qual}')
        if not force_inline and not f.qual.endswith('<lambda>'):
            ctx.inlined.add(f.qual)
        fr = self.new_frame(f, f.mod, f.parent)
        env = self.bind_args(f, args, kwargs, fr)
        ctx.state.envs[fr.fid].update(env)
        node = f.node
        if not hasattr(node, '_assigned'):
            node._assigned = assigned_names(node)
            node._gen = has_yield(node)
        fr.locals = node._assigned
        self.call_depth += 1
        saved_line = ctx.line
        try:
            if isinstance(node, ast.Lambda):
                return self.eval(node.body, fr)
            if node._gen:
                out = ctx.new_cell('list')
                ctx.state.envs[fr.fid]['%out'] = out
                try:
                    self.block(node.body, fr)
                except ReturnEx:
                    pass
                out = ctx.state.envs[fr.fid]['%out']
                return self.m.make_iterator(self, out)
            try:
                self.block(node.body, fr)
            except ReturnEx as r:
                return r.value
            return NONE
        finally:
            self.call_depth -= 1
            ctx.line = saved_line

    # ------------------------------------------------------------ statements

    def block(self, stmts, fr):
        for s in stmts:
            self.stmt(s, fr)

    def stmt(self, s, fr):
        ctx = self.ctx
        ctx.line = f'{fr.mod.name.split(".")[-1]}.py:{s.lineno}'
        k = type(s).__name__
        m = getattr(self, 's_' + k, None)
        if m is None:
            raise Unsupported(f'statement {k} at {ctx.line}')
        m(s, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Import(self, s, fr):
        for a in s.names:
            self.store_name(a.asname or a.name.split('.')[0],
                            self.do_import(fr.mod, s, a), fr)

    s_ImportFrom = s_Import

    def s_Global(self, s, fr):
        fr.globals.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocals.update(s.names)

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        f = Func(s, fr.mod, f'{fr.func.qual if fr.func else ""}.{s.name}',
                 parent=fr)
        f.defaults = [self.eval(d, fr) for d in s.args.defaults]
        self.store_name(s.name, f, fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = self.m.unpack(self, v, t.elts)
            for e, x in zip(t.elts, items):
                if isinstance(e, ast.Starred):
                    raise Unsupported('starred assignment')
                self.assign(e, x, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.m.setitem(self, o, self.eval_index(t.slice, fr), v)
        else:
            raise Unsupported('assignment target')

    def s_AugAssign(self, s, fr):
        t = s.target
        load = None
        if isinstance(t, ast.Name):
            cur = self.lookup(t.id, fr)
            v = self.eval(s.value, fr)
            r = self.m.augop(self, type(s.op).__name__, cur, v)
            self.store_name(t.id, r, fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            v = self.eval(s.value, fr)
            self.setattr(o, t.attr,
                         self.m.augop(self, type(s.op).__name__, cur, v))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            i = self.eval_index(t.slice, fr)
            cur = self.m.getitem(self, o, i)
            v = self.eval(s.value, fr)
            self.m.setitem(self, o, i,
                           self.m.augop(self, type(s.op).__name__, cur, v))
        else:
            raise Unsupported('augmented assignment')

    def s_Return(self, s, fr):
        raise ReturnEx(self.eval(s.value, fr) if s.value is not None else NONE)

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            self.block(s.body, fr)
        else:
            self.block(s.orelse, fr)

    def s_Break(self, s, fr):
        raise BreakEx()

    def s_Continue(self, s, fr):
        raise ContinueEx()

    def s_Assert(self, s, fr):
        v = self.eval(s.test, fr)
        if not self.truth(v):
            self.raise_('AssertionError')

    def s_Raise(self, s, fr):
        if s.exc is None:
            if fr.exc is None:
                self.raise_('RuntimeError')
            raise PyRaise(fr.exc, self.ctx.line)
        v = self.eval(s.exc, fr)
        if isinstance(v, ExcV):
            raise PyRaise(v, self.ctx.line)
        if isinstance(v, ExtV) and v.name.startswith('builtins.'):
            raise PyRaise(ExcV(v.name[9:]), self.ctx.line)
        if isinstance(v, ClassInfo):
            raise PyRaise(ExcV(v.name), self.ctx.line)
        raise Unsupported(f'raise {v}')

    def exc_matches(self, exc, v):
        if isinstance(v, Tup):
            return any(self.exc_matches(exc, x) for x in v.items)
        if isinstance(v, ExtV) and v.name.startswith('builtins.'):
            want = v.name[9:]
        elif isinstance(v, ClassInfo):
            want = v.name
        else:
            raise Unsupported(f'except {v}')
        n = exc.cls
        if n == 'ArbitraryError':
            if want == 'BaseException':
                return True
            return self.ctx.choose(2) == 1
        while n is not None:
            if n == want:
                return True
            n = BUILTIN_EXC.get(n, 'Exception')
        return False

    def s_Try(self, s, fr):
        def core_():
            try:
                self.block(s.body, fr)
            except PyRaise as e:
                for h in s.handlers:
                    if h.type is None or self.exc_matches(
                            e.exc, self.eval(h.type, fr)):
                        if h.name:
                            self.store_name(h.name, e.exc, fr)
                        saved = fr.exc
                        fr.exc = e.exc
                        try:
                            self.block(h.body, fr)
                        finally:
                            fr.exc = saved
                        return
                raise
            else:
                self.block(s.orelse, fr)
        if not s.finalbody:
            core_()
            return
        try:
            core_()
        except (PyRaise, ReturnEx, BreakEx, ContinueEx):
            self.block(s.finalbody, fr)
            raise
        self.block(s.finalbody, fr)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                self.ctx.state.envs[fr.fid].pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                self.m.delitem(self, o, self.eval_index(t.slice, fr))
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if isinstance(o, Obj) and \
                        t.attr in self.ctx.state.objs[o.oid]:
                    del self.ctx.state.objs[o.oid][t.attr]
                else:
                    raise Unsupported('del attribute')
            elif isinstance(t, ast.Tuple):
                self.s_Delete(ast.Delete(targets=t.elts), fr)
            else:
                raise Unsupported('del target')

    # ------------------------------------------------------------ loops

    def s_For(self, s, fr):
        itv = self.eval(s.iter, fr)
        self.for_loop(s, itv, lambda v: self.assign(s.target, v, fr),
                      lambda: self.block(s.body, fr), fr,
                      lambda: self.block(s.orelse, fr))

    def for_loop(self, node, itv, bind, body, fr, orelse=None):
        ctx = self.ctx
        gen = itv if isinstance(itv, GenV) else None
        it = self.m.iterate(self, itv)
        if it.elems is not None and len(it.elems) <= UNROLL:
            for v in it.elems:
                bind(v)
                try:
                    body()
                except ContinueEx:
                    continue
                except BreakEx:
                    return
            if gen:
                self.m.exhaust(self, gen)
            if orelse:
                orelse()
            return

        def one(i):
            ctx.assume(z3.And(0 <= i, i < it.n))
            if hasattr(it, 'check') and not self.dry:
                it.check(self)
            loops = ctx.loops
            ctx.loops = loops + [(it, i)]
            try:
                bind(it.get(i))
                body()
            finally:
                ctx.loops = loops

        if ctx.quick(it.n <= 0, 200):
            if gen:
                self.m.exhaust(self, gen)
            if orelse:
                orelse()
            return
        self.loop(node, it, fr, one, None, orelse)
        if gen:
            self.m.exhaust(self, gen)

    def s_While(self, s, fr):
        ctx = self.ctx
        n = 0
        const_true = isinstance(s.test, ast.Constant) and s.test.value
        if not const_true:
            while n < 400:
                # unroll as long as the test is decided by constants
                st = ctx.state
                npc = len(st.pc)
                e = ctx.exp
                mark = (e.pos, len(e.trace))
                v = self.peek_const(s.test, fr)
                if v is None:
                    break
                if not v:
                    self.block(s.orelse, fr)
                    return
                try:
                    self.block(s.body, fr)
                except ContinueEx:
                    pass
                except BreakEx:
                    return
                n += 1
            else:
                raise Unsupported('loop unrolled too often')

        def cond():
            return self.truth(self.eval(s.test, fr))

        def one(i):
            self.block(s.body, fr)

        self.loop(s, None, fr, one, None if const_true else cond,
                  lambda: self.block(s.orelse, fr), const_true)

    def peek_const(self, e, fr):
        """Value of a test decided without branching, else None."""
        if isinstance(e, ast.Name):
            try:
                v = self.lookup(e.id, fr)
            except PyRaise:
                return None
            return self.m.const_truth(self, v)
        if isinstance(e, ast.UnaryOp) and isinstance(e.op, ast.Not):
            v = self.peek_const(e.operand, fr)
            return None if v is None else not v
        if isinstance(e, ast.Compare) and len(e.ops) == 1 and \
                all(isinstance(x, (ast.Name, ast.Constant))
                    for x in (e.left, e.comparators[0])):
            v = self.eval(e, fr)
            return self.m.const_truth(self, v)
        return None

    def loop(self, node, it, fr, one, cond, orelse, infinite=False):
        """Cut the loop by an inductive invariant found among templates."""
        ctx = self.ctx
        e = ctx.exp
        key = (id(node), fr.fid, tuple(e.trace[:e.pos]), 'loop')
        s0 = ctx.state.copy()
        if key not in e.cache:
            mod = self.modset(node, it, fr, one, cond)
            if self.dry:
                e.cache[key] = (mod, [], [])
            else:
                names, cells = self.houdini(node, it, fr, one, cond, mod, s0)
                e.cache[key] = (mod, names, cells)
        mod, names, _ = e.cache[key]
        self.reapply_cells(mod)
        s0 = ctx.state.copy()
        L = LoopCtx(self, fr, node, it, z3.IntVal(0), s0)
        L.mod = mod
        i = self.havoc(mod, it, L)
        L.i = i
        L.havoc_state = ctx.state
        if names:
            self.assume_invs(L, names)
        which = ctx.choose(2)
        if which == 0:
            # exit
            if infinite:
                raise PathEnd()
            if it is not None:
                ctx.assume(i == it.n)
            else:
                if cond():
                    raise PathEnd()
            if orelse:
                orelse()
            return
        # one arbitrary iteration
        if cond is not None:
            if not cond():
                raise PathEnd()
        if self.dry:
            # only modifications matter here
            try:
                one(i)
            except ContinueEx:
                pass
            except BreakEx:
                return
            raise PathEnd()
        try:
            one(i)
        except ContinueEx:
            pass
        except BreakEx:
            return
        raise PathEnd()     # the invariant was shown to be preserved

    def loop_key(self, node, fr):
        """Names a loop independently of line numbers."""
        if fr.func is None:
            return '?'
        loops = [n for n in ast.walk(fr.func.node) if isinstance(
            n, (ast.For, ast.While, ast.ListComp, ast.SetComp, ast.DictComp,
                ast.GeneratorExp))]
        k = [i for i, n in enumerate(loops) if n is node]
        return f'{fr.func.qual}#{k[0] if k else "?"}'

    def candidates(self, L):
        out = []
        gens = list(self.m.generic_invariants(L))
        skip = self.ctx.opts.get('skip')
        if skip:
            gens = [(n, f) for n, f in gens if not re.search(skip, n)]
        c = self.ctx.contract
        if c is not None:
            gens += list(c.loop_invariants(L))
        seen = {}
        for nm, f in gens:
            k = seen.get(nm, 0)
            seen[nm] = k + 1
            out.append((f'{nm}#{k}' if k else nm, f))
        return out

    def assume_invs(self, L, names):
        for nm, f in self.candidates(L):
            if nm in names:
                self.ctx.assume(f if not isinstance(f, bool)
                                else z3.BoolVal(f))

    def reapply_cells(self, mod):
        for tk, ct in mod['cells']:
            r = self.ctx.cells.get(tk)
            if r is not None and r.ct is None:
                self.ctx.resolve(r, ct)

    def modset(self, node, it, fr, one, cond):
        ctx = self.ctx
        mod = dict(env={}, heap={}, objs={}, glob=set(), ghost=set(),
                   alloc=False, cells=[])
        self.dry += 1
        try:
            for rnd in range(8):
                log0 = len(ctx.resolved_log)
                base = {}

                def run():
                    L = LoopCtx(self, fr, node, it, z3.IntVal(0),
                                ctx.state.copy())
                    i = self.havoc(mod, it, L)
                    base['s'] = ctx.state.copy()
                    st = base['s']
                    try:
                        if cond is not None and not cond():
                            raise PathEnd()
                        one(i)
                    except ContinueEx:
                        pass
                    except (BreakEx, ReturnEx, PyRaise):
                        return None
                    return st
                res = ctx.explore_sub(run)
                for r in ctx.resolved_log[log0:]:
                    tk = r.t.sexpr()
                    if (tk, r.ct) not in mod['cells'] and \
                            tk in getattr(ctx, 'cells', {}):
                        mod['cells'].append((tk, r.ct))
                grew = False
                for st0, st in res:
                    if st0 is None:
                        continue
                    grew |= self.diff(st0, st, mod, fr)
                if not grew:
                    break
            else:
                raise Unsupported('loop modifications do not stabilise')
        finally:
            self.dry -= 1
        return mod

    def diff(self, a, b, mod, fr):
        ctx = self.ctx
        grew = False
        for k, t in b.heap.items():
            if k in mod['heap']:
                continue
            t0 = a.heap.get(k)
            if t0 is None:
                if t.decl().name() == 'H0.' + k and t.num_args() == 0:
                    continue
            elif t0.eq(t):
                continue
            mod['heap'][k] = t.sort()
            grew = True
        if not b.alloc.eq(a.alloc) and not mod['alloc']:
            mod['alloc'] = True
            grew = True
        for fid, env in b.envs.items():
            env0 = a.envs.get(fid)
            if env0 is None:
                continue
            for n, v in env.items():
                if n not in env0:
                    continue
                if self.same(env0[n], v):
                    continue
                j = self.join(mod['env'].get((fid, n), env0[n]), v)
                old = mod['env'].get((fid, n))
                if old is None or not self.same_shape(old, j):
                    mod['env'][(fid, n)] = j
                    grew = True
        for oid, at in b.objs.items():
            at0 = a.objs.get(oid)
            if at0 is None:
                continue
            for n, v in at.items():
                if n in at0 and self.same(at0[n], v):
                    continue
                old = mod['objs'].get((oid, n))
                j = self.join(old if old is not None else at0.get(n, v), v)
                if old is None or not self.same_shape(old, j):
                    mod['objs'][(oid, n)] = j
                    grew = True
        for g, v in b.globals.items():
            if g in a.globals and not self.same(a.globals[g], v):
                raise Unsupported('loop assigns a module global')
        for g, v in b.ghost.items():
            if g in a.ghost and a.ghost[g] is not v and g not in mod['ghost']:
                mod['ghost'].add(g)
                grew = True
        return grew

    def same(self, a, b):
        if a is b:
            return True
        if type(a) is not type(b):
            return False
        if isinstance(a, Const):
            return type(a.value) is type(b.value) and a.value == b.value
        if isinstance(a, Sym):
            return a.ty == b.ty and a.t.eq(b.t)
        if isinstance(a, Ref):
            return a.t.eq(b.t)
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(
                self.same(x, y) for x, y in zip(a.items, b.items))
        if isinstance(a, Obj):
            return a.oid == b.oid
        if isinstance(a, GenV):
            return a.oid == b.oid
        if isinstance(a, self.m.StrV):
            return a.same(b)
        if hasattr(a, 'same_v'):
            return a.same_v(b)
        if isinstance(a, BMeth):
            return self.same(a.self_v, b.self_v) and self.same(a.fn, b.fn)
        if isinstance(a, Func):
            return a.node is b.node
        if isinstance(a, IterV):
            return a.n.eq(b.n)
        if isinstance(a, Builtin):
            return a.name == b.name
        return False

    def same_shape(self, a, b):
        if type(a) is not type(b):
            return False
        if isinstance(a, Const):
            return a.value == b.value
        if isinstance(a, Sym):
            return a.ty == b.ty
        if isinstance(a, Ref):
            return a.nullable == b.nullable and \
                (a.ct.name if a.ct else None) == (b.ct.name if b.ct else None)
        if isinstance(a, Tup):
            return len(a.items) == len(b.items) and all(
                self.same_shape(x, y) for x, y in zip(a.items, b.items))
        return True

    def join(self, a, b):
        """Shape covering both values (for havoc)."""
        if isinstance(a, Const) and isinstance(b, Const):
            if type(a.value) is type(b.value) and a.value == b.value:
                return a
        ta, tb = self.m.scalar_type(a), self.m.scalar_type(b)
        if ta is not None and tb is not None:
            if ta == tb:
                return Sym(ta, None)
            if {ta, tb} <= {TInt, TReal}:
                return Sym(TReal, None)
            if {ta, tb} == {TInt, TBool}:
                return Sym(TInt, None)
        if isinstance(a, Const) and a.value is None and isinstance(b, Ref):
            return Ref(b._ct, b.t, True)
        if isinstance(b, Const) and b.value is None and isinstance(a, Ref):
            return Ref(a._ct, a.t, True)
        if isinstance(a, Ref) and isinstance(b, Ref):
            if a.ct is not None and b.ct is not None and \
                    a.ct.name == b.ct.name:
                return Ref(a.ct, a.t, a.nullable or b.nullable)
            if a.ct is None:
                return Ref(b.ct, b.t, a.nullable or b.nullable)
            if b.ct is None:
                return a
        if isinstance(a, Tup) and isinstance(b, Tup) and \
                len(a.items) == len(b.items):
            return Tup([self.join(x, y) for x, y in zip(a.items, b.items)])
        if isinstance(a, self.m.StrV) or isinstance(b, self.m.StrV):
            return self.m.StrV.shape()
        if self.same(a, b):
            return a
        return Opaque('havoc')

    def havoc_v(self, v, hint):
        ctx = self.ctx
        if isinstance(v, Sym):
            return Sym(v.ty, ctx.fresh(v.ty.sort, hint))
        if isinstance(v, Ref):
            r = Ref(v._ct, ctx.fresh_int(hint), v.nullable)
            ctx.wellformed(r)
            return r
        if isinstance(v, Tup):
            return Tup([self.havoc_v(x, hint) for x in v.items])
        if isinstance(v, self.m.StrV):
            return self.m.StrV.fresh(ctx, hint)
        if isinstance(v, Const):
            return v
        return Opaque('havoc')

    def havoc(self, mod, it, L):
        ctx = self.ctx
        st = ctx.state
        i = ctx.fresh_int('it')
        if it is not None:
            ctx.assume(z3.And(0 <= i, i <= it.n))
        else:
            ctx.assume(0 <= i)
        if mod['alloc']:
            a = ctx.fresh_int('alloc')
            ctx.assume(a >= st.alloc)
            st.alloc = a
        for k, sort in sorted(mod['heap'].items()):
            st.heap[k] = ctx.fresh(sort, 'h_' + k)
        for (fid, n), v in sorted(mod['env'].items(), key=lambda x: x[0]):
            if fid in st.envs and n in st.envs[fid]:
                st.envs[fid][n] = self.havoc_v(v, n)
        for (oid, n), v in sorted(mod['objs'].items(), key=lambda x: x[0]):
            if oid in st.objs and n in st.objs[oid]:
                st.objs[oid][n] = self.havoc_v(v, n)
        for g in sorted(mod['ghost']):
            t = st.ghost[g]
            st.ghost[g] = ctx.fresh(t.sort(), 'g_' + g)
        return i

    def houdini(self, node, it, fr, one, cond, mod, s0):
        ctx = self.ctx
        self.reapply_cells(mod)
        s0 = ctx.state.copy()
        qual = fr.func.qual if fr.func else '?'
        loopname = f'{qual.split(":")[-1]} loop@{ctx.line}'
        ht = ctx.opts.get('patience', 1)
        plan = ctx.opts.get('houdini_plan') or [
            ('z3', dict(timeout_ms=int(700 * ht), mbqi=False)),
            ('cvc5', dict(timeout_ms=int(2500 * ht))),
            ('z3', dict(timeout_ms=int(2000 * ht), mbqi=False, relevancy=0)),
            ('z3', dict(timeout_ms=1000, mbqi=False, arith=2)),
        ]
        saved_plan = ctx.opts.get('plan')
        ctx.opts['plan'] = plan
        saved_state = ctx.state
        ctx.muted += 1
        dbg = ctx.opts.get('debug')
        try:
            # initiation
            ctx.state = s0.copy()
            L = LoopCtx(self, fr, node, it, z3.IntVal(0), s0)
            L.mod = mod
            L.havoc_state = ctx.state
            names = []
            lkey = self.loop_key(node, fr)
            hint = (ctx.opts.get('hints') or {}).get(lkey)
            cs = [(nm, f) for nm, f in self.candidates(L)
                  if hint is None or nm in hint]
            for (nm, f), (ok, be, d) in zip(cs, ctx.prove_many(
                    [f for _, f in cs])):
                if ok:
                    names.append(nm)
                elif dbg:
                    print('   init fails', loopname, nm, d[:300])
                    if os.environ.get('PYVC_DUMPC', '\0') in loopname + nm:
                        ctx.dump(f, nm, '/tmp/cand.smt2')
            for rnd in range(12):
                if not names:
                    break
                failed = set()

                def run():
                    st0 = ctx.state.copy()
                    L = LoopCtx(self, fr, node, it, None, st0)
                    L.mod = mod
                    i = self.havoc(mod, it, L)
                    L.i = i
                    L.havoc_state = ctx.state
                    self.assume_invs(L, names)
                    if it is not None:
                        ctx.assume(i < it.n)
                    try:
                        if cond is not None and not cond():
                            raise PathEnd()
                        one(i)
                    except ContinueEx:
                        pass
                    except (BreakEx, ReturnEx, PyRaise):
                        return None
                    L.i = i + 1
                    cs = [(nm, f) for nm, f in self.candidates(L)
                          if nm in names and nm not in failed]
                    for (nm, f), (ok, be, d) in zip(cs, ctx.prove_many(
                            [f for _, f in cs])):
                        if not ok:
                            failed.add(nm)
                            if os.environ.get('PYVC_DUMPC', '\0') in loopname + nm:
                                ctx.dump(f, nm, '/tmp/cand.smt2')
                            if dbg:
                                print('   not preserved', loopname, nm,
                                      d[:300])
                    return None
                ctx.explore_sub(run)
                if not failed:
                    break
                names = [n for n in names if n not in failed]
            else:
                raise Unsupported('invariant inference does not stabilise')
        finally:
            ctx.muted -= 1
            ctx.state = saved_state
            if saved_plan is None:
                ctx.opts.pop('plan', None)
            else:
                ctx.opts['plan'] = saved_plan
        kept = ctx.kept.setdefault(lkey, [])
        kept += [n for n in names if n not in kept]
        if not ctx.muted:
            for nm in names:
                ctx.obligations.append(Obligation(
                    f'{loopname}: invariant {nm} holds initially and is '
                    'preserved', 'proved', 'z3', 0.0))
        if dbg:
            print('  loop', loopname, 'keeps', names)
        return names, mod['cells']

    # ------------------------------------------------------------ expressions

    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported(f'expression {type(e).__name__} at '
                              f'{self.ctx.line}')
        return m(e, fr)

    def eval_index(self, e, fr):
        if isinstance(e, ast.Slice):
            return ('slice',
                    self.eval(e.lower, fr) if e.lower else NONE,
                    self.eval(e.upper, fr) if e.upper else NONE,
                    self.eval(e.step, fr) if e.step else NONE)
        return self.eval(e, fr)

    def truth(self, v):
        t = self.m.truth_term(self, v)
        return self.ctx.branch(t)

    def e_Constant(self, e, fr):
        return Const(e.value)

    def e_Name(self, e, fr):
        return self.lookup(e.id, fr, e)

    def e_Tuple(self, e, fr):
        return Tup(self.eval_args(e.elts, fr))

    def e_List(self, e, fr):
        items = self.eval_args(e.elts, fr)
        return self.m.make_list(self, items)

    def e_Set(self, e, fr):
        return self.m.make_pyset(self, self.eval_args(e.elts, fr))

    def e_Dict(self, e, fr):
        r = self.m.make_dict(self)
        if any(k is None for k in e.keys):
            raise Unsupported('dict display with **')
        cd = self.m.const_dict(self, [
            (self.eval(k, fr), self.eval(v, fr))
            for k, v in zip(e.keys, e.values)]) if e.keys else r
        return cd

    def eval_args(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                v = self.eval(x.value, fr)
                if isinstance(v, Tup):
                    out.extend(v.items)
                else:
                    it = self.m.iterate(self, v)
                    if it.elems is None:
                        raise Unsupported('starred argument of unknown length')
                    out.extend(it.elems)
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Starred(self, e, fr):
        raise Unsupported('starred')

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for i, x in enumerate(e.values):
            v = self.eval(x, fr)
            if i == len(e.values) - 1:
                return v
            if self.truth(v) != isand:
                return v
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            return self.m.mkbool(z3.Not(self.m.bt(
                self.m.truth_term(self, v))))
        return self.m.unary(self, type(e.op).__name__, v)

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.m.binop(self, type(e.op).__name__, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = None
        for op, r in zip(e.ops, e.comparators):
            right = self.eval(r, fr)
            c = self.m.compare(self, type(op).__name__, left, right)
            if len(e.ops) == 1:
                return c
            if not self.truth(c):
                return FALSE
            res = c
            left = right
        return TRUE

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        self.store_name(e.target.id, v, fr)
        return v

    def e_Lambda(self, e, fr):
        f = Func(e, fr.mod, f'{fr.func.qual if fr.func else ""}.<lambda>',
                 parent=fr)
        f.defaults = [self.eval(d, fr) for d in e.args.defaults]
        return f

    def e_JoinedStr(self, e, fr):
        for x in e.values:
            if isinstance(x, ast.FormattedValue):
                self.eval(x.value, fr)
        return Opaque('str')

    def e_Attribute(self, e, fr):
        return self.getattr(self.eval(e.value, fr), e.attr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.m.getitem(self, o, self.eval_index(e.slice, fr))

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and \
                not e.args:
            f = fr
            while f is not None and (f.func is None or f.func.cls is None):
                f = f.parent
            if f is None:
                raise Unsupported('super() outside a method')
            first = f.func.node.args.args[0].arg
            return SuperV(f.func.cls, self.ctx.state.envs[f.fid][first])
        fn = self.eval(e.func, fr)
        args = self.eval_args(e.args, fr)
        kw = {}
        for k in e.keywords:
            if k.arg is None:
                raise Unsupported('**kwargs call')
            kw[k.arg] = self.eval(k.value, fr)
        line = self.ctx.line
        self.cur_frame = fr
        r = self.call(fn, args, kw)
        self.ctx.line = line
        return r

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else NONE
        out = self.ctx.state.envs[fr.fid]['%out']
        self.m.list_append(self, out, v)
        return NONE

    def e_YieldFrom(self, e, fr):
        v = self.eval(e.value, fr)
        out = self.ctx.state.envs[fr.fid]['%out']
        self.m.list_extend(self, out, v)
        return NONE

    # comprehensions

    def e_ListComp(self, e, fr):
        return self.m.comprehension(self, e, fr, 'list')

    def e_GeneratorExp(self, e, fr):
        r = self.m.comprehension(self, e, fr, 'list')
        return self.m.make_iterator(self, r)

    def e_SetComp(self, e, fr):
        return self.m.set_from(self, self.m.comprehension(self, e, fr, 'list'))

    def e_DictComp(self, e, fr):
        return self.m.comprehension(self, e, fr, 'dict')

    # ------------------------------------------------------------ attributes

    def getattr(self, o, name, default=None):
        ctx = self.ctx
        if isinstance(o, Obj):
            at = ctx.state.objs[o.oid]
            if name in at:
                return at[name]
            if name == '__class__':
                return o.cls
            a = self.class_attr(o.cls, name)
            if a is not None:
                return self.bind(a, o, o.cls)
            hook = self.m.obj_attr(self, o, name)
            if hook is not None:
                return hook
            if default is not None:
                return default
            self.raise_('AttributeError', Const(name))
        if isinstance(o, ModV):
            v = self.module_global(o.mod, name)
            if v is None:
                sub = ctx.program.module(o.mod.name + '.' + name)
                if sub is not None:
                    return ModV(sub)
                if default is not None:
                    return default
                self.raise_('AttributeError', Const(name))
            return v
        if isinstance(o, ClassInfo):
            if name == '__name__':
                return Const(o.name)
            a = self.class_attr(o, name)
            if a is None:
                self.raise_('AttributeError', Const(name))
            if isinstance(a, tuple):
                return a[1]
            return a
        if isinstance(o, SuperV):
            self_cls = o.self_v.cls
            mro = self.mro(self_cls)
            rest = mro[mro.index(o.cls) + 1:]
            for c in rest:
                a = self.class_attr(c, name, own=True)
                if a is not None:
                    return self.bind(a, o.self_v, self_cls)
            self.raise_('AttributeError', Const(name))
        if isinstance(o, Ref):
            o = self.m.deref(self, o)
            if isinstance(o.ct, StructCT):
                return self.m.struct_getattr(self, o, name, default)
        return self.m.getattr_model(self, o, name, default)

    def bind(self, a, o, cls):
        if isinstance(a, Func):
            return BMeth(o, a)
        if isinstance(a, PropV):
            return self.call(a.fn, [o])
        if isinstance(a, tuple):
            return a[1] if a[0] == 'static' else BMeth(cls, a[1])
        return a

    def setattr(self, o, name, v):
        ctx = self.ctx
        if isinstance(o, Obj):
            a = self.class_attr(o.cls, name)
            if isinstance(a, PropV):
                self.raise_('AttributeError')
            if isinstance(v, Ref) and v.ct is None:
                ty = self.attr_type(o.cls, name)
                if ty is not None:
                    self.m.resolve_as(self, v, ty)
            hook = ctx.opts.get('on_setattr')
            if hook:
                hook(self, o, name, v)
            ctx.state.objs[o.oid] = dict(ctx.state.objs[o.oid])
            ctx.state.objs[o.oid][name] = v
            return
        if isinstance(o, Ref):
            o = self.m.deref(self, o)
            if isinstance(o.ct, StructCT):
                self.m.struct_setattr(self, o, name, v)
                return
        if isinstance(o, Const):
            self.raise_('AttributeError')
        raise Unsupported(f'attribute assignment {o}.{name}')
