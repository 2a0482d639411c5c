"""Symbolic values, string/number theories and the solver wrapper."""
import z3, time

Str = z3.DeclareSort('Str')
F32 = z3.DeclareSort('F32')
F64 = z3.DeclareSort('F64')
Val = z3.DeclareSort('Val')


class Unsupported(Exception):
    """The verifier cannot follow this construct: the obligation is undecided, never failed."""


class Stats:
    def __init__(self):
        self.queries = 0
        self.time = 0.0
        self.unknown = 0


class Theory:
    """One solver with the axioms of the terms created so far (reset per verified function)."""

    def __init__(self, timeout_ms=20000):
        self.s = z3.Solver()
        self.s.set('timeout', timeout_ms)
        self.stats = Stats()
        self.lits = {}
        self.litv = {}
        self.cache = {}
        self.fn = {}
        self.seen = {}
        self.keep = []
        self.axioms = []
        self.tag = z3.Function('tag', Str, z3.IntSort())
        self.log = None

    # -- axioms -------------------------------------------------------------------------------
    def ax(self, e):
        self.axioms.append(e)
        self.s.add(e)
        self.cache.clear()

    def lit(self, s):
        c = self.lits.get(s)
        if c is None:
            c = z3.Const('"%s"' % s, Str)
            self.lits[s] = c
            self.litv[c.get_id()] = s
            self.ax(self.tag(c) == len(self.lits))
        return c

    def litval(self, t):
        return self.litv.get(t.get_id()) if isinstance(t, z3.ExprRef) else None

    def func(self, name, *sorts):
        f = self.fn.get(name)
        if f is None:
            f = z3.Function(name, *sorts)
            self.fn[name] = f
        return f

    # -- queries ------------------------------------------------------------------------------
    def check(self, conds):
        cs = []
        for c in conds:
            if c is True or (isinstance(c, z3.ExprRef) and z3.is_true(c)):
                continue
            if c is False or (isinstance(c, z3.ExprRef) and z3.is_false(c)):
                return 'unsat'
            cs.append(c)
        key = tuple(sorted(c.get_id() for c in cs))
        r = self.cache.get(key)
        if r is not None:
            return r
        t = time.time()
        self.s.push()
        for c in cs:
            self.s.add(c)
        res = self.s.check()
        self.model = None
        if res == z3.sat:
            self.model = self.s.model()
        self.s.pop()
        self.stats.queries += 1
        self.stats.time += time.time() - t
        r = 'sat' if res == z3.sat else 'unsat' if res == z3.unsat else 'unknown'
        if r == 'unknown':
            self.stats.unknown += 1
        self.keep.append(cs)
        self.cache[key] = r
        return r

    def feasible(self, conds):
        return self.check(conds) != 'unsat'

    def prove(self, pc, cond):
        """'proved' | 'refuted' | 'unknown'"""
        if cond is True:
            return 'proved'
        neg = True if cond is False else z3.Not(cond)
        r = self.check(list(pc) + [neg])
        return {'unsat': 'proved', 'sat': 'refuted', 'unknown': 'unknown'}[r]


# -- values ------------------------------------------------------------------------------------
class Sym:
    """A lazily expanded symbolic value of a compound type."""
    __slots__ = ('ty', 'name', 'u')

    def __init__(self, ty, name):
        self.ty = ty
        self.name = name

    def __repr__(self):
        return 'Sym(%s)' % self.name


class Adt:
    __slots__ = ('ty', 'var', 'fields')

    def __init__(self, ty, var, fields):
        self.ty = ty
        self.var = var
        self.fields = tuple(fields)

    def __repr__(self):
        return 'Adt#%s.v%s%r' % (self.ty, self.var, list(self.fields))


class Tup:
    __slots__ = ('fields',)

    def __init__(self, fields=()):
        self.fields = tuple(fields)

    def __repr__(self):
        return 'Tup%r' % (list(self.fields),)


UNIT = Tup()


class Arr:
    __slots__ = ('items',)

    def __init__(self, items):
        self.items = tuple(items)

    def __repr__(self):
        return 'Arr%r' % (list(self.items),)


class RefV:
    __slots__ = ('v',)

    def __init__(self, v):
        self.v = v

    def __repr__(self):
        return '&%r' % (self.v,)


class Ptr:
    __slots__ = ('cell', 'path')

    def __init__(self, cell, path=()):
        self.cell = cell
        self.path = tuple(path)

    def __repr__(self):
        return 'Ptr(%s,%s)' % (self.cell, self.path)


class Seq:
    """A symbolic sequence of unknown length; its generic element is elem."""
    __slots__ = ('name', 'elemty', 'elem', 'kind')

    def __init__(self, name, elemty, elem, kind=None):
        self.name = name
        self.elemty = elemty
        self.elem = elem
        self.kind = kind

    def __repr__(self):
        return 'Seq(%s)' % self.name


class Vec:
    """parts: ('e', value) | ('s', Seq) | ('F', Seq, alts) | ('P', mark)
    alts of a ForEach: tuple of (guard conditions over the generic element, parts)"""
    __slots__ = ('parts',)

    def __init__(self, parts=()):
        self.parts = tuple(parts)

    def __repr__(self):
        return 'Vec%r' % (list(self.parts),)


class Clo:
    __slots__ = ('ty', 'fields')

    def __init__(self, ty, fields):
        self.ty = ty
        self.fields = tuple(fields)

    def __repr__(self):
        return 'Clo#%s%r' % (self.ty, list(self.fields))


class FnV:
    """A function item value."""
    __slots__ = ('fn',)

    def __init__(self, fn):
        self.fn = fn

    def __repr__(self):
        return 'FnV(%s)' % (self.fn.get('name') or self.fn.get('decl'))


class Obj:
    """Opaque library object with named attributes (iterators, builders, writers ...)."""
    __slots__ = ('kind', 'a')

    def __init__(self, kind, **a):
        self.kind = kind
        self.a = a

    def with_(self, **kw):
        o = Obj(self.kind)
        o.a = dict(self.a)
        o.a.update(kw)
        return o

    def __repr__(self):
        return '%s%r' % (self.kind, self.a)


class Undef:
    def __repr__(self):
        return 'undef'


UNDEF = Undef()


def is_z3(v):
    return isinstance(v, z3.ExprRef)


def zbool(v):
    return z3.BoolVal(v) if isinstance(v, bool) else v


def zint(v):
    return z3.IntVal(int(v)) if isinstance(v, (int, bool)) else v


def AND(*cs):
    out = []
    for c in cs:
        if c is True:
            continue
        if c is False:
            return False
        out.append(c)
    if not out:
        return True
    return out[0] if len(out) == 1 else z3.And(*out)


def OR(*cs):
    out = []
    for c in cs:
        if c is False:
            continue
        if c is True:
            return True
        out.append(c)
    if not out:
        return False
    return out[0] if len(out) == 1 else z3.Or(*out)


def NOT(c):
    if c is True:
        return False
    if c is False:
        return True
    return z3.Not(c)


def IMP(a, b):
    return OR(NOT(a), b)
