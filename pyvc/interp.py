"""AST interpreter of the real functions in /repo, over symbolic and concrete values.

The source is re-read from the module files on every run.  Heap objects are real Python objects of
the real classes; only their attribute values may be symbolic.
"""
import ast
import builtins
import threading
import types
import z3

from .values import *  # noqa
from .values import simp
from .solver import Ctx, PathEnd, Restart, zb

REPO_PREFIX = None      # set by repo.py


class PyRaise(Exception):
    """an exception raised by the interpreted program"""

    def __init__(self, exc):
        self.exc = exc


class BoundMethod(object):
    __slots__ = ('func', 'self_')

    def __init__(self, func, self_):
        self.func, self.self_ = func, self_


class SymMethod(object):
    __slots__ = ('obj', 'name')

    def __init__(self, obj, name):
        self.obj, self.name = obj, name


class InterpFunction(object):
    """lambda or nested function"""

    def __init__(self, node, frame, defaults, kwdefaults, name):
        self.node, self.frame, self.defaults, self.kwdefaults, self.name = node, frame, defaults, kwdefaults, name


class SuperProxy(object):
    __slots__ = ('cls', 'obj')

    def __init__(self, cls, obj):
        self.cls, self.obj = cls, obj


class Frame(object):
    def __init__(self, globs, parent=None, cells=None, func=None):
        self.locals = {}
        self.globals = globs
        self.parent = parent
        self.cells = cells or {}
        self.func = func
        self.global_names = set()
        self.nonlocal_names = set()
        self.exc = None
        self.loop_counts = {}
        self.gen = None
        self.qualname = '?'


MISSING = object()
_AST_CACHE = {}


def module_ast(filename):
    if filename not in _AST_CACHE:
        with open(filename, encoding='utf-8') as f:
            src = f.read()
        tree = ast.parse(src, filename)
        idx = {}
        for node in ast.walk(tree):
            if isinstance(node, (ast.FunctionDef, ast.AsyncFunctionDef)):
                line = min([node.lineno] + [d.lineno for d in node.decorator_list])
                idx[(line, node.name)] = node
            elif isinstance(node, ast.Lambda):
                idx.setdefault((node.lineno, '<lambda>'), node)
        _AST_CACHE[filename] = (tree, idx)
    return _AST_CACHE[filename]


def func_node(f):
    code = f.__code__
    tree, idx = module_ast(code.co_filename)
    node = idx.get((code.co_firstlineno, code.co_name))
    if node is None:
        raise Unsupported('no source for %s' % f.__qualname__)
    return node


def in_repo(f):
    return isinstance(f, types.FunctionType) and f.__code__.co_filename.startswith(REPO_PREFIX)


_CLS = {}


def cls_in_repo(c):
    """a class of the library, or a declaration (subclass) built on one"""
    r = _CLS.get(c)
    if r is None:
        import sys
        r = False
        for k in getattr(c, '__mro__', (c,)):
            m = sys.modules.get(getattr(k, '__module__', None))
            fn = getattr(m, '__file__', None)
            if fn and fn.startswith(REPO_PREFIX):
                r = True
        _CLS[c] = r
    return r


def pytype(v):
    if isinstance(v, Sym):
        return v.pytype
    if isinstance(v, (InterpFunction, BoundMethod, SymMethod)):
        return types.FunctionType
    if hasattr(type(v), '_pyvc_type'):
        return type(v)._pyvc_type
    return type(v)


def is_concrete(v, depth=0, seen=None):
    if isinstance(v, (int, str, bytes, float, bool, type(None), type, types.FunctionType, types.BuiltinFunctionType,
                      types.ModuleType)):
        return True
    if isinstance(v, Sym) or isinstance(v, (InterpFunction, BoundMethod, SymMethod, SuperProxy)):
        return False
    if hasattr(type(v), '_pyvc_type'):
        return False
    if depth > 12:
        return False
    if seen is None:
        seen = set()
    if id(v) in seen:
        return True
    seen.add(id(v))
    if isinstance(v, (list, tuple, set, frozenset)):
        return all(is_concrete(x, depth + 1, seen) for x in v)
    if isinstance(v, dict):
        return all(is_concrete(k, depth + 1, seen) and is_concrete(x, depth + 1, seen) for k, x in v.items())
    d = getattr(v, '__dict__', None)
    if isinstance(d, dict):
        return all(is_concrete(x, depth + 1, seen) for x in d.values())
    return True


def assigned_names(nodes):
    """local names (re)bound by executing these statements"""
    out = set()
    for n in nodes:
        for x in ast.walk(n):
            if isinstance(x, ast.Name) and isinstance(x.ctx, (ast.Store, ast.Del)):
                out.add(x.id)
            elif isinstance(x, ast.ExceptHandler) and x.name:
                out.add(x.name)
    return out


class Generator(object):
    """an interpreted generator: the body runs on its own thread, strictly alternating with the caller"""

    _pyvc_type = types.GeneratorType

    def __init__(self, interp, frame, node):
        self.interp, self.frame, self.node = interp, frame, node
        self.resume = threading.Semaphore(0)
        self.yielded = threading.Semaphore(0)
        self.thread = None
        self.done = False
        self.item = None
        self.error = None
        self.killed = False
        frame.gen = self

    def _run(self):
        self.resume.acquire()
        try:
            if not self.killed:
                self.interp.exec_block(self.node.body, self.frame)
        except BaseException as e:
            self.error = e
        self.done = True
        self.yielded.release()

    def next(self):
        if self.done:
            raise PyRaise(StopIteration())
        if self.thread is None:
            self.thread = threading.Thread(target=self._run, daemon=True)
            self.thread.start()
            self.interp.generators.append(self)
        self.resume.release()
        self.yielded.acquire()
        if self.done:
            if self.error is not None:
                e, self.error = self.error, None
                raise e
            raise PyRaise(StopIteration())
        return self.item

    def yield_(self, v):
        self.item = v
        self.yielded.release()
        self.resume.acquire()
        if self.killed:
            raise PathEnd('generator abandoned')
        return None

    def kill(self):
        if self.thread is not None and not self.done:
            self.killed = True
            self.resume.release()
            self.yielded.acquire()


class SymIter(object):
    """iterator over a collection of symbolic length: length z3/int, item(i)"""

    _pyvc_type = object

    def __init__(self, length, item, desc='seq'):
        self.length, self.item, self.desc = length, item, desc


class Interp(object):
    def __init__(self, ctx, models, contracts=None, loop_rules=None, unroll=0, max_depth=60):
        self.ctx = ctx
        self.models = models
        self.contracts = contracts or {}
        self.loop_rules = loop_rules or []
        self.unroll = unroll
        self.depth = 0
        self.max_depth = max_depth
        self.steps = 0
        self.generators = []
        self.call_log = []
        self.no_contract = set()
        self.stack = []
        self.loop_handlers = []
        self.native_contracts = {}
        self.ghost = {}
        self.current_exc = []

    def cleanup(self):
        for g in self.generators:
            try:
                g.kill()
            except BaseException:
                pass

    # ------------------------------------------------------------------ helpers
    def truth(self, v):
        if isinstance(v, bool):
            return v
        if isinstance(v, SBool):
            return self.ctx.branch(v.z)
        if isinstance(v, SInt):
            return self.ctx.branch(v.z != 0)
        if isinstance(v, SBytes):
            n = v.zlen()
            return self.ctx.branch(n > 0) if not isinstance(n, int) else n > 0
        if isinstance(v, SStr):
            return self.models.str_truth(self, v)
        if isinstance(v, SReal):
            return self.ctx.branch(v.num != 0)
        if isinstance(v, Sym):
            return self.models.sym_truth(self, v)
        if v is None or isinstance(v, (int, str, bytes, float, list, dict, tuple, set)):
            return bool(v)
        t = type(v)
        if hasattr(t, '_pyvc_type'):
            b = getattr(v, 'sym_truth', None)
            return b(self) if b else True
        if cls_in_repo(t):
            m = self.mro_lookup(t, '__bool__')
            if m is not MISSING and isinstance(m, types.FunctionType):
                return self.truth(self.call(BoundMethod(m, v), [], {}))
            m = self.mro_lookup(t, '__len__')
            if m is not MISSING and isinstance(m, types.FunctionType):
                return self.truth(self.compare(ast.NotEq(), self.call(BoundMethod(m, v), [], {}), 0))
            return True
        return bool(v)

    def mro_lookup(self, cls, name):
        for c in cls.__mro__:
            if name in c.__dict__:
                return c.__dict__[name]
        return MISSING

    def raise_(self, exc):
        raise PyRaise(exc)

    # ------------------------------------------------------------------ attributes
    def getattr(self, obj, name):
        if isinstance(obj, Sym):
            return self.models.sym_getattr(self, obj, name)
        if isinstance(obj, SuperProxy):
            mro = (obj.obj if isinstance(obj.obj, type) else type(obj.obj)).__mro__
            i = mro.index(obj.cls) + 1
            for c in mro[i:]:
                if name in c.__dict__:
                    return self.bind(c.__dict__[name], obj.obj, name)
            raise PyRaise(AttributeError(name))
        if isinstance(obj, (BoundMethod, InterpFunction, SymMethod)):
            if name == '__name__':
                return 'f'
            raise Unsupported('attribute %s of function' % name)
        if hasattr(type(obj), '_pyvc_type'):
            return obj.pyvc_getattr(self, name)
        if isinstance(obj, type):
            raw = self.mro_lookup(obj, name)
            if isinstance(raw, classmethod):
                return BoundMethod(raw.__func__, obj) if isinstance(raw.__func__, types.FunctionType) \
                    else getattr(obj, name)
            if isinstance(raw, staticmethod):
                return raw.__func__
            if isinstance(raw, types.FunctionType):
                return raw
            try:
                return getattr(obj, name)
            except AttributeError as e:
                raise PyRaise(e)
        t = type(obj)
        if cls_in_repo(t):
            if name == '__class__':
                return t
            if name == '__dict__':
                return obj.__dict__
            raw = self.mro_lookup(t, name)
            if isinstance(raw, property):
                if raw.fget is None:
                    raise PyRaise(AttributeError(name))
                return self.call(BoundMethod(raw.fget, obj), [], {})
            d = getattr(obj, '__dict__', {})
            if name in d:
                return d[name]
            if raw is not MISSING:
                return self.bind(raw, obj, name)
            ga = self.mro_lookup(t, '__getattr__')
            if isinstance(ga, types.FunctionType):
                return self.call(BoundMethod(ga, obj), [name], {})
            try:
                return getattr(obj, name)
            except AttributeError as e:
                raise PyRaise(e)
        try:
            return getattr(obj, name)
        except AttributeError as e:
            raise PyRaise(e)

    def bind(self, raw, obj, name):
        if isinstance(raw, types.FunctionType):
            return raw if isinstance(obj, type) else BoundMethod(raw, obj)
        if isinstance(raw, classmethod):
            return BoundMethod(raw.__func__, obj if isinstance(obj, type) else type(obj))
        if isinstance(raw, staticmethod):
            return raw.__func__
        if isinstance(raw, property):
            return self.call(BoundMethod(raw.fget, obj), [], {})
        if hasattr(raw, '__get__'):
            return raw.__get__(obj, type(obj)) if not isinstance(obj, type) else raw.__get__(None, obj)
        return raw

    def setattr(self, obj, name, v):
        if isinstance(obj, Sym) or hasattr(type(obj), '_pyvc_type'):
            if hasattr(obj, 'pyvc_setattr'):
                return obj.pyvc_setattr(self, name, v)
            raise Unsupported('setattr on %r' % (type(obj),))
        if not isinstance(obj, type) and cls_in_repo(type(obj)):
            raw = self.mro_lookup(type(obj), name)
            if isinstance(raw, property):
                if raw.fset is None:
                    raise PyRaise(AttributeError("can't set attribute %s" % name))
                self.call(BoundMethod(raw.fset, obj), [v], {})
                return
            self.note_write(obj, name)
            obj.__dict__[name] = v
            return
        if isinstance(obj, type):
            self.models.class_write(self, obj, name)
        try:
            setattr(obj, name, v)
        except (AttributeError, TypeError) as e:
            raise PyRaise(e)

    def note_write(self, obj, name):
        for w in getattr(self, 'write_watch', ()):
            w(obj, name)

    # ------------------------------------------------------------------ calls
    def call(self, f, args, kwargs):
        self.steps += 1
        if self.steps % 200 == 0:
            self.ctx.run.tick()
        if isinstance(f, BoundMethod):
            return self.call(f.func, [f.self_] + list(args), kwargs)
        if isinstance(f, types.MethodType):
            if in_repo(f.__func__):
                return self.call(f.__func__, [f.__self__] + list(args), kwargs)
        if isinstance(f, InterpFunction):
            return self.call_interp(f, args, kwargs)
        if isinstance(f, SymMethod):
            return self.models.sym_call(self, f.obj, f.name, args, kwargs)
        if isinstance(f, types.FunctionType) and in_repo(f):
            return self.call_function(f, args, kwargs)
        if self.native_contracts:
            try:
                m = self.native_contracts.get(f)
            except TypeError:
                m = None
            if m is not None:
                r = m(self, *args, **kwargs)
                if r is not MISSING:
                    self.ctx.used_contracts.add('%s.%s (assumed)' % (getattr(f, '__module__', ''), getattr(f, '__name__', '')))
                    return r
        m = self.models.lookup(self, f)
        if m is not None:
            return m(self, *args, **kwargs)
        if isinstance(f, type):
            return self.instantiate(f, args, kwargs)
        if hasattr(type(f), '_pyvc_type'):
            return f.pyvc_call(self, args, kwargs)
        slf = getattr(f, '__self__', None)
        if isinstance(f, types.BuiltinFunctionType) or isinstance(f, types.MethodType) \
                or type(f).__name__ in ('method_descriptor', 'builtin_function_or_method', 'wrapper_descriptor',
                                        'method-wrapper', 'classmethod_descriptor', 'partial'):
            r = self.models.builtin_method(self, f, slf, args, kwargs)
            if r is not MISSING:
                return r
        elif isinstance(f, types.FunctionType):
            pass
        elif cls_in_repo(type(f)):
            m = self.mro_lookup(type(f), '__call__')
            if isinstance(m, types.FunctionType):
                return self.call(BoundMethod(m, f), args, kwargs)
        if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kwargs.values()) \
                and (slf is None or is_concrete(slf)):
            return self.native(f, args, kwargs)
        raise Unsupported('call of %s with symbolic arguments' % (getattr(f, '__qualname__', repr(f)),))

    def native(self, f, args, kwargs):
        try:
            return f(*args, **kwargs)
        except EngineSignal:
            raise
        except Exception as e:
            raise PyRaise(e)

    def call_function(self, f, args, kwargs):
        qn = f.__module__ + '.' + f.__qualname__
        c = self.contracts.get(qn)
        if c is not None and qn not in self.no_contract:
            r = c(self, f, args, kwargs)
            if r is not MISSING:
                self.ctx.used_contracts.add(qn)
                return r
        ov = self.models.override(qn)
        if ov is not None:
            return ov(self, *args, **kwargs)
        node = func_node(f)
        cells = {}
        if f.__closure__:
            for n, cell in zip(f.__code__.co_freevars, f.__closure__):
                cells[n] = cell
        fr = Frame(f.__globals__, None, cells, f)
        fr.qualname = qn
        defaults = f.__defaults__ or ()
        self.bind_args(node.args, args, kwargs, defaults, f.__kwdefaults__ or {}, fr, f.__name__)
        return self.run_body(node, fr, qn)

    def call_interp(self, f, args, kwargs):
        fr = Frame(f.frame.globals, f.frame, f.frame.cells, f.frame.func)
        fr.qualname = f.frame.qualname + '.' + f.name
        self.bind_args(f.node.args, args, kwargs, f.defaults, f.kwdefaults, fr, f.name)
        if isinstance(f.node, ast.Lambda):
            return self.eval(f.node.body, fr)
        return self.run_body(f.node, fr, fr.qualname)

    def run_body(self, node, fr, qn):
        if is_generator(node):
            return Generator(self, fr, node)
        self.depth += 1
        if self.depth > self.max_depth:
            self.depth -= 1
            raise Unsupported('call depth over %d in %s' % (self.max_depth, qn))
        self.stack.append(qn)
        try:
            self.ctx.run.functions.add(qn)
            r = self.exec_block(node.body, fr)
        finally:
            self.depth -= 1
            self.stack.pop()
        if r is not None and r[0] == 'return':
            return r[1]
        return None

    def bind_args(self, a, args, kwargs, defaults, kwdefaults, fr, fname):
        names = [x.arg for x in a.posonlyargs + a.args]
        args = list(args)
        kwargs = dict(kwargs)
        loc = fr.locals
        if len(args) > len(names) and a.vararg is None:
            raise PyRaise(TypeError('%s() takes %d positional arguments but %d were given'
                                    % (fname, len(names), len(args))))
        for n, v in zip(names, args):
            loc[n] = v
        if a.vararg is not None:
            loc[a.vararg.arg] = tuple(args[len(names):])
        for i, n in enumerate(names):
            if n in loc:
                if n in kwargs:
                    raise PyRaise(TypeError("%s() got multiple values for argument '%s'" % (fname, n)))
                continue
            if n in kwargs:
                loc[n] = kwargs.pop(n)
            else:
                j = i - (len(names) - len(defaults))
                if j >= 0:
                    loc[n] = defaults[j]
                else:
                    raise PyRaise(TypeError("%s() missing required argument '%s'" % (fname, n)))
        for x in a.kwonlyargs:
            n = x.arg
            if n in kwargs:
                loc[n] = kwargs.pop(n)
            elif n in kwdefaults:
                loc[n] = kwdefaults[n]
            else:
                raise PyRaise(TypeError("%s() missing keyword argument '%s'" % (fname, n)))
        if a.kwarg is not None:
            loc[a.kwarg.arg] = kwargs
        elif kwargs:
            raise PyRaise(TypeError("%s() got an unexpected keyword argument '%s'" % (fname, sorted(kwargs)[0])))

    def instantiate(self, cls, args, kwargs):
        if cls_in_repo(cls) and not issubclass(cls, BaseException):
            new = self.mro_lookup(cls, '__new__')
            if isinstance(new, staticmethod):
                new = new.__func__
            if isinstance(new, types.FunctionType) and in_repo(new):
                obj = self.call(new, [cls] + list(args), kwargs)
                if not isinstance(obj, cls):
                    return obj
            else:
                try:
                    obj = cls.__new__(cls)
                except TypeError:
                    if all(is_concrete(x) for x in args):
                        return self.native(cls, args, kwargs)
                    raise Unsupported('construct %s' % cls.__name__)
            init = self.mro_lookup(cls, '__init__')
            if isinstance(init, types.FunctionType):
                self.call(BoundMethod(init, obj), args, kwargs)
            elif args or kwargs:
                return self.native(cls, args, kwargs)
            return obj
        if issubclass(cls, BaseException):
            try:
                return cls(*args)
            except Exception as e:
                raise PyRaise(e)
        if all(is_concrete(a) for a in args) and all(is_concrete(a) for a in kwargs.values()):
            return self.native(cls, args, kwargs)
        raise Unsupported('construct %s from symbolic arguments' % (cls.__name__,))

    # ------------------------------------------------------------------ statements
    def exec_block(self, body, fr):
        for s in body:
            r = self.exec(s, fr)
            if r is not None:
                return r
        return None

    def exec(self, s, fr):
        m = getattr(self, 's_' + type(s).__name__, None)
        if m is None:
            raise Unsupported('statement %s' % type(s).__name__)
        return m(s, fr)

    def s_Expr(self, s, fr):
        if isinstance(s.value, ast.Constant):
            return
        self.eval(s.value, fr)

    def s_Pass(self, s, fr):
        pass

    def s_Return(self, s, fr):
        return ('return', self.eval(s.value, fr) if s.value is not None else None)

    def s_Break(self, s, fr):
        return ('break',)

    def s_Continue(self, s, fr):
        return ('continue',)

    def s_Global(self, s, fr):
        fr.global_names.update(s.names)

    def s_Nonlocal(self, s, fr):
        fr.nonlocal_names.update(s.names)

    def s_Import(self, s, fr):
        import importlib
        for a in s.names:
            m = importlib.import_module(a.name)
            self.store_name(a.asname or a.name.split('.')[0],
                            m if a.asname else __import__(a.name.split('.')[0]), fr)

    def s_ImportFrom(self, s, fr):
        import importlib
        pkg = fr.globals.get('__package__')
        m = importlib.import_module('.' * s.level + (s.module or ''), pkg if s.level else None)
        for a in s.names:
            self.store_name(a.asname or a.name, getattr(m, a.name), fr)

    def s_Assign(self, s, fr):
        v = self.eval(s.value, fr)
        for t in s.targets:
            self.assign(t, v, fr)

    def s_AnnAssign(self, s, fr):
        if s.value is not None:
            self.assign(s.target, self.eval(s.value, fr), fr)

    def s_AugAssign(self, s, fr):
        t = s.target
        if isinstance(t, ast.Name):
            cur = self.load_name(t.id, fr)
            self.store_name(t.id, self.augop(s.op, cur, self.eval(s.value, fr)), fr)
        elif isinstance(t, ast.Attribute):
            o = self.eval(t.value, fr)
            cur = self.getattr(o, t.attr)
            self.setattr(o, t.attr, self.augop(s.op, cur, self.eval(s.value, fr)))
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            k = self.eval_index(t.slice, fr)
            cur = self.getitem(o, k)
            self.setitem(o, k, self.augop(s.op, cur, self.eval(s.value, fr)))
        else:
            raise Unsupported('augmented assignment target')

    def augop(self, op, cur, v):
        if isinstance(cur, list) and isinstance(op, ast.Add):
            cur.extend(self.iterate(v))
            return cur
        if isinstance(cur, set) and isinstance(op, ast.BitOr):
            cur.update(v)
            return cur
        return self.binop(op, cur, v)

    def assign(self, t, v, fr):
        if isinstance(t, ast.Name):
            self.store_name(t.id, v, fr)
        elif isinstance(t, ast.Attribute):
            self.setattr(self.eval(t.value, fr), t.attr, v)
        elif isinstance(t, ast.Subscript):
            o = self.eval(t.value, fr)
            self.setitem(o, self.eval_index(t.slice, fr), v)
        elif isinstance(t, (ast.Tuple, ast.List)):
            items = list(self.iterate(v))
            stars = [i for i, e in enumerate(t.elts) if isinstance(e, ast.Starred)]
            if stars:
                i = stars[0]
                after = len(t.elts) - i - 1
                if len(items) < len(t.elts) - 1:
                    raise PyRaise(ValueError('not enough values to unpack'))
                for e, x in zip(t.elts[:i], items[:i]):
                    self.assign(e, x, fr)
                self.assign(t.elts[i].value, items[i:len(items) - after], fr)
                for e, x in zip(t.elts[i + 1:], items[len(items) - after:]):
                    self.assign(e, x, fr)
                return
            if len(items) != len(t.elts):
                raise PyRaise(ValueError('wrong number of values to unpack (expected %d, got %d)'
                                         % (len(t.elts), len(items))))
            for e, x in zip(t.elts, items):
                self.assign(e, x, fr)
        else:
            raise Unsupported('assignment target %s' % type(t).__name__)

    def s_Delete(self, s, fr):
        for t in s.targets:
            if isinstance(t, ast.Name):
                fr.locals.pop(t.id, None)
            elif isinstance(t, ast.Subscript):
                o = self.eval(t.value, fr)
                k = self.eval_index(t.slice, fr)
                self.delitem(o, k)
            elif isinstance(t, ast.Attribute):
                o = self.eval(t.value, fr)
                if cls_in_repo(type(o)):
                    self.note_write(o, t.attr)
                    if t.attr not in o.__dict__:
                        raise PyRaise(AttributeError(t.attr))
                    del o.__dict__[t.attr]
                else:
                    raise Unsupported('del attribute')
            else:
                raise Unsupported('del target')

    def s_If(self, s, fr):
        if self.truth(self.eval(s.test, fr)):
            return self.exec_block(s.body, fr)
        return self.exec_block(s.orelse, fr)

    def s_Assert(self, s, fr):
        if not self.truth(self.eval(s.test, fr)):
            raise PyRaise(AssertionError())

    def s_Raise(self, s, fr):
        if s.exc is None:
            if not self.current_exc:
                raise PyRaise(RuntimeError('No active exception to reraise'))
            raise PyRaise(self.current_exc[-1])
        self.raising = getattr(self, 'raising', 0) + 1
        try:
            e = self.eval(s.exc, fr)
        finally:
            self.raising -= 1
        if s.cause is not None:
            self.eval(s.cause, fr)
        if isinstance(e, type):
            e = self.instantiate(e, [], {})
        if not isinstance(e, BaseException):
            raise PyRaise(TypeError('exceptions must derive from BaseException'))
        raise PyRaise(e)

    def s_Try(self, s, fr):
        def inner():
            try:
                r = self.exec_block(s.body, fr)
            except PyRaise as pr:
                for h in s.handlers:
                    if h.type is None:
                        match = True
                    else:
                        ty = self.eval(h.type, fr)
                        match = isinstance(pr.exc, ty)
                    if match:
                        if h.name:
                            self.store_name(h.name, pr.exc, fr)
                        self.current_exc.append(pr.exc)
                        try:
                            return self.exec_block(h.body, fr)
                        finally:
                            self.current_exc.pop()
                            if h.name:
                                fr.locals.pop(h.name, None)
                raise
            if r is None and s.orelse:
                return self.exec_block(s.orelse, fr)
            return r
        if not s.finalbody:
            return inner()
        try:
            r = inner()
        except PyRaise:
            rf = self.exec_block(s.finalbody, fr)
            if rf is not None:
                return rf
            raise
        rf = self.exec_block(s.finalbody, fr)
        return rf if rf is not None else r

    def s_With(self, s, fr):
        mgrs = []
        for it in s.items:
            m = self.eval(it.context_expr, fr)
            v = self.call(self.getattr(m, '__enter__'), [], {})
            if it.optional_vars is not None:
                self.assign(it.optional_vars, v, fr)
            mgrs.append(m)
        try:
            r = self.exec_block(s.body, fr)
        except PyRaise as e:
            for m in reversed(mgrs):
                if self.truth(self.call(self.getattr(m, '__exit__'), [type(e.exc), e.exc, None], {})):
                    return None
            raise
        for m in reversed(mgrs):
            self.call(self.getattr(m, '__exit__'), [None, None, None], {})
        return r

    def s_FunctionDef(self, s, fr):
        if s.decorator_list:
            raise Unsupported('decorated nested function')
        self.store_name(s.name, self.make_function(s, fr, s.name), fr)

    def make_function(self, node, fr, name):
        d = tuple(self.eval(x, fr) for x in node.args.defaults)
        kd = {}
        for a, x in zip(node.args.kwonlyargs, node.args.kw_defaults):
            if x is not None:
                kd[a.arg] = self.eval(x, fr)
        return InterpFunction(node, fr, d, kd, name)

    # loops ---------------------------------------------------------------------------------------
    def s_While(self, s, fr):
        from . import loops
        for h in self.loop_handlers:
            r = h(self, s, fr, None)
            if r is not MISSING:
                return r
        if loops.wants_cut(self, s, fr):
            return loops.cut_while(self, s, fr)
        forks = 0
        while True:
            nd = len(self.ctx.pending)
            npre = len(self.ctx.decisions)
            if not self.truth(self.eval(s.test, fr)):
                return self.exec_block(s.orelse, fr) if s.orelse else None
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == 'break':
                    return None
                if r[0] == 'return':
                    return r
            if len(self.ctx.decisions) > npre:
                forks += 1
                if forks > self.unroll:
                    if self.loop_rules:
                        self.ctx.run.cut_keys.add(loops.loop_key(fr, s))
                        raise Restart('cut loop')
                    self.ctx.incomplete.append('loop at %s:%d unrolled %d times' % (fr.qualname, s.lineno, forks))
                    raise PathEnd('loop bound')

    def s_For(self, s, fr):
        from . import loops
        it = self.eval(s.iter, fr)
        it = self.models.to_iter(self, it)
        if isinstance(it, SymIter) and not isinstance(simp(it.length), int):
            for h in self.loop_handlers:
                r = h(self, s, fr, it)
                if r is not MISSING:
                    return r
            return loops.cut_for(self, s, fr, it)
        for v in self.py_iter(it):
            self.assign(s.target, v, fr)
            r = self.exec_block(s.body, fr)
            if r is not None:
                if r[0] == 'break':
                    return None
                if r[0] == 'return':
                    return r
        if s.orelse:
            return self.exec_block(s.orelse, fr)

    def py_iter(self, it):
        """Python-level iterator over the items of an interpreted iterable (finite)"""
        if isinstance(it, SymIter):
            n = simp(it.length)
            if isinstance(n, int):
                for i in range(n):
                    yield it.item(i)
                return
            raise Unsupported('iteration over a collection of symbolic length (%s)' % it.desc)
        if isinstance(it, Generator):
            while True:
                try:
                    v = it.next()
                except PyRaise as e:
                    if isinstance(e.exc, StopIteration):
                        return
                    raise
                yield v
            return
        if cls_in_repo(type(it)):
            m = self.mro_lookup(type(it), '__iter__')
            if isinstance(m, types.FunctionType):
                r = self.call(BoundMethod(m, it), [], {})
                for v in self.py_iter(self.models.to_iter(self, r)):
                    yield v
                return
            m = self.mro_lookup(type(it), '__getitem__')
            raise Unsupported('iterate %r' % type(it))
        try:
            i = iter(it)
        except TypeError as e:
            raise PyRaise(e)
        while True:
            try:
                v = next(i)
            except StopIteration:
                return
            except EngineSignal:
                raise
            except Exception as e:
                raise PyRaise(e)
            yield v

    def iterate(self, v):
        return self.py_iter(self.models.to_iter(self, v))

    # ------------------------------------------------------------------ names
    def load_name(self, n, fr):
        if n in fr.global_names:
            f = None
        else:
            f = fr
            while f is not None:
                if n in f.locals:
                    return f.locals[n]
                f = f.parent
            if n in fr.cells:
                try:
                    return fr.cells[n].cell_contents
                except ValueError:
                    raise PyRaise(NameError(n))
        if n in fr.globals:
            return fr.globals[n]
        if hasattr(builtins, n):
            return getattr(builtins, n)
        raise PyRaise(UnboundLocalError("cannot access local variable '%s'" % n))

    def store_name(self, n, v, fr):
        if n in fr.global_names:
            raise Unsupported('store to global %s' % n)
        if n in fr.nonlocal_names:
            f = fr.parent
            while f is not None:
                if n in f.locals:
                    f.locals[n] = v
                    return
                f = f.parent
            raise Unsupported('nonlocal %s' % n)
        fr.locals[n] = v

    # ------------------------------------------------------------------ expressions
    def eval(self, e, fr):
        m = getattr(self, 'e_' + type(e).__name__, None)
        if m is None:
            raise Unsupported('expression %s' % type(e).__name__)
        return m(e, fr)

    def e_Constant(self, e, fr):
        return e.value

    def e_Name(self, e, fr):
        return self.load_name(e.id, fr)

    def e_Attribute(self, e, fr):
        o = self.eval(e.value, fr)
        n = e.attr
        if n.startswith('__') and not n.endswith('__') and fr.func is not None:
            parts = fr.func.__qualname__.split('.')
            if len(parts) > 1:
                n = '_%s%s' % (parts[-2].lstrip('_'), n)
        return self.getattr(o, n)

    def e_Tuple(self, e, fr):
        return tuple(self.eval_list(e.elts, fr))

    def e_List(self, e, fr):
        return self.eval_list(e.elts, fr)

    def e_Set(self, e, fr):
        return self.models.make_set(self, self.eval_list(e.elts, fr))

    def eval_list(self, elts, fr):
        out = []
        for x in elts:
            if isinstance(x, ast.Starred):
                out.extend(self.iterate(self.eval(x.value, fr)))
            else:
                out.append(self.eval(x, fr))
        return out

    def e_Dict(self, e, fr):
        d = {}
        for k, v in zip(e.keys, e.values):
            if k is None:
                d.update(self.eval(v, fr))
            else:
                kk = self.eval(k, fr)
                self.setitem(d, kk, self.eval(v, fr))
        return d

    def e_Lambda(self, e, fr):
        return self.make_function(e, fr, '<lambda>')

    def e_IfExp(self, e, fr):
        if self.truth(self.eval(e.test, fr)):
            return self.eval(e.body, fr)
        return self.eval(e.orelse, fr)

    def e_BoolOp(self, e, fr):
        isand = isinstance(e.op, ast.And)
        v = None
        for x in e.values:
            v = self.eval(x, fr)
            if x is e.values[-1]:
                return v
            t = self.truth(v)
            if isand and not t:
                return v if not isinstance(v, Sym) else (False if isinstance(v, SBool) else v)
            if not isand and t:
                return v if not isinstance(v, SBool) else True
        return v

    def e_UnaryOp(self, e, fr):
        v = self.eval(e.operand, fr)
        if isinstance(e.op, ast.Not):
            if isinstance(v, SBool):
                return mkbool(z3.Not(v.z))
            return not self.truth(v)
        if isinstance(v, (SInt, SBool)):
            z = zi(v)
            if isinstance(e.op, ast.USub):
                return mkint(-z)
            if isinstance(e.op, ast.UAdd):
                return mkint(z)
            if isinstance(e.op, ast.Invert):
                return mkint(-z - 1)
        if isinstance(v, SReal) and isinstance(e.op, ast.USub):
            return SReal(simp(-v.num), v.den)
        if isinstance(v, Sym):
            raise Unsupported('unary op on %s' % type(v).__name__)
        if isinstance(e.op, ast.USub) and hasattr(type(v), 'pyvc_neg'):
            return v.pyvc_neg(self)
        import operator
        f = {ast.USub: operator.neg, ast.UAdd: operator.pos, ast.Invert: operator.invert}[type(e.op)]
        return self.native(f, [v], {})

    def e_BinOp(self, e, fr):
        a = self.eval(e.left, fr)
        b = self.eval(e.right, fr)
        return self.binop(e.op, a, b)

    def binop(self, op, a, b):
        return self.models.binop(self, op, a, b)

    def e_Compare(self, e, fr):
        left = self.eval(e.left, fr)
        res = True
        for i, (op, r) in enumerate(zip(e.ops, e.comparators)):
            right = self.eval(r, fr)
            res = self.compare(op, left, right)
            if i == len(e.ops) - 1:
                return res
            if not self.truth(res):
                return False
            left = right
        return res

    def compare(self, op, a, b):
        return self.models.compare(self, op, a, b)

    def e_Call(self, e, fr):
        if isinstance(e.func, ast.Name) and e.func.id == 'super' and 'super' not in fr.locals:
            if e.args:
                return SuperProxy(self.eval(e.args[0], fr), self.eval(e.args[1], fr))
            cls = fr.cells['__class__'].cell_contents
            first = next(iter(fr.locals.values()))
            return SuperProxy(cls, first)
        if isinstance(e.func, ast.Name) and e.func.id == 'locals':
            raise Unsupported('locals()')
        f = self.eval(e.func, fr)
        args = self.eval_list(e.args, fr)
        kwargs = {}
        for k in e.keywords:
            if k.arg is None:
                kwargs.update(self.eval(k.value, fr))
            else:
                kwargs[k.arg] = self.eval(k.value, fr)
        return self.call(f, args, kwargs)

    def eval_index(self, s, fr):
        if isinstance(s, ast.Slice):
            return slice(*[self.eval(x, fr) if x is not None else None for x in (s.lower, s.upper, s.step)])
        return self.eval(s, fr)

    def e_Slice(self, s, fr):
        return self.eval_index(s, fr)

    def e_Subscript(self, e, fr):
        o = self.eval(e.value, fr)
        return self.getitem(o, self.eval_index(e.slice, fr))

    def getitem(self, o, k):
        return self.models.getitem(self, o, k)

    def setitem(self, o, k, v):
        return self.models.setitem(self, o, k, v)

    def delitem(self, o, k):
        return self.models.delitem(self, o, k)

    def comp(self, gens, fr, emit):
        fr2 = Frame(fr.globals, fr, fr.cells, fr.func)
        fr2.qualname = fr.qualname

        def rec(i):
            if i == len(gens):
                emit(fr2)
                return
            g = gens[i]
            for v in self.iterate(self.eval(g.iter, fr if i == 0 else fr2)):
                self.assign(g.target, v, fr2)
                if all(self.truth(self.eval(c, fr2)) for c in g.ifs):
                    rec(i + 1)
        rec(0)

    def e_ListComp(self, e, fr):
        from . import loops
        r = loops.try_map_comp(self, e, fr)
        if r is not None:
            return r
        out = []
        self.comp(e.generators, fr, lambda f: out.append(self.eval(e.elt, f)))
        return out

    def e_GeneratorExp(self, e, fr):
        # evaluated eagerly: the element expressions in this code base have no side effects
        return self.e_ListComp(e, fr)

    def e_SetComp(self, e, fr):
        return self.models.make_set(self, self.e_ListComp(e, fr))

    def e_DictComp(self, e, fr):
        out = {}

        def emit(f):
            self.setitem(out, self.eval(e.key, f), self.eval(e.value, f))
        self.comp(e.generators, fr, emit)
        return out

    def e_JoinedStr(self, e, fr):
        parts = []
        for v in e.values:
            if isinstance(v, ast.Constant):
                parts.append(v.value)
            else:
                x = self.eval(v.value, fr)
                spec = self.eval(v.format_spec, fr) if v.format_spec is not None else ''
                parts.append(self.models.format_value(self, x, spec, v.conversion))
        return self.models.str_concat(self, parts)

    def e_NamedExpr(self, e, fr):
        v = self.eval(e.value, fr)
        f = fr
        self.store_name(e.target.id, v, f)
        return v

    def e_Yield(self, e, fr):
        v = self.eval(e.value, fr) if e.value is not None else None
        f = fr
        while f.gen is None:
            f = f.parent
        return f.gen.yield_(v)

    def e_YieldFrom(self, e, fr):
        for v in self.iterate(self.eval(e.value, fr)):
            fr.gen.yield_(v)

    def e_Starred(self, e, fr):
        raise Unsupported('starred expression')


def is_generator(node):
    if isinstance(node, ast.Lambda):
        return False
    if not hasattr(node, '_isgen'):
        found = False
        stack = list(node.body)
        while stack:
            x = stack.pop()
            if isinstance(x, (ast.Yield, ast.YieldFrom)):
                found = True
                break
            if isinstance(x, (ast.FunctionDef, ast.Lambda, ast.ClassDef)):
                continue
            stack.extend(ast.iter_child_nodes(x))
        node._isgen = found
    return node._isgen
