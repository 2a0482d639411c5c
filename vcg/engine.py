"""Symbolic executor for the MIR that mirdump extracts from the current /repo tree.

A function is executed with symbolic inputs; calls are replaced by contracts (contracts.py) where
one is registered and inlined otherwise; a loop over a symbolic sequence is cut with an inferred
invariant (foreach.py); a read of the event stream suspends the path (outcome 'demand') so that
the stream loop is cut there (deser.py)."""
import z3
from values import *


class Frame:
    __slots__ = ('fn', 'fid', 'bb', 'si', 'dest', 'ret', 'tag')

    def __init__(self, fn, fid, bb=0, si=0, dest=None, ret=None, tag=None):
        self.fn = fn
        self.fid = fid
        self.bb = bb
        self.si = si
        self.dest = dest      # (cell, path) in the caller to store the result in
        self.ret = ret        # block of the caller to continue at
        self.tag = tag

    def copy(self):
        return Frame(self.fn, self.fid, self.bb, self.si, self.dest, self.ret, self.tag)


class State:
    __slots__ = ('store', 'pc', 'frames', 'known', 'ghost', 'steps', 'trace', 'nfid', 'visits')

    def __init__(self):
        self.store = {}
        self.pc = []
        self.frames = []
        self.known = {}
        self.ghost = {}
        self.steps = 0
        self.trace = ()
        self.nfid = 0
        self.visits = {}

    def fork(self):
        s = State()
        s.store = dict(self.store)
        s.pc = list(self.pc)
        s.frames = [f.copy() for f in self.frames]
        s.known = dict(self.known)
        s.ghost = dict(self.ghost)
        s.steps = self.steps
        s.trace = self.trace
        s.nfid = self.nfid
        s.visits = self.visits
        return s


class Outcome:
    """kind: ret (value) | panic (msg) | demand | back | hang"""
    __slots__ = ('kind', 'st', 'value')

    def __init__(self, kind, st, value=None):
        self.kind = kind
        self.st = st
        self.value = value

    def __repr__(self):
        return '<%s %r>' % (self.kind, self.value)


class Suspend(Exception):
    """Raised by a contract: the path stops here with this outcome."""

    def __init__(self, kind, value=None):
        self.kind = kind
        self.value = value


class Program:
    def __init__(self, d):
        self.T = {int(k): v for k, v in d['types'].items()}
        self.fns = d['fns']
        self.roots = d['roots']
        self.byname = {}
        for i, t in self.T.items():
            if t:
                self.byname.setdefault(t['s'], i)
        self.live = {}

    def ty(self, i):
        return self.T[i]

    def find_ty(self, suffix):
        for s, i in self.byname.items():
            if s == suffix:
                return i
        c = [i for s, i in self.byname.items() if s.split('<')[0].endswith(suffix)]
        return c[0] if c else None

    def fn(self, key):
        f = self.fns.get(key)
        if f is None:
            raise Unsupported('no body for %s' % key)
        return f


def short(s):
    return s.split('::')[-1]


INT_RANGE = {}


def int_range(t):
    b = t['bits']
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if t['signed'] else (0, (1 << b) - 1)


class Engine:
    MAXSTEPS = 6000
    MAXPATHS = 20000

    def __init__(self, prog, theory):
        self.p = prog
        self.th = theory
        self.contracts = []      # (predicate(f), handler)
        self.hooks = []
        self.fresh_n = 0
        self.used_contracts = {}
        self.inlined = {}
        self.npaths = 0
        self.catparts = {}
        self.symcache = {}
        self.canoncache = {}
        self.cdisp = {}
        self.assumptions = set()

    # ------------------------------------------------------------------ fresh values
    def fresh(self, base):
        self.fresh_n += 1
        return '%s!%d' % (base, self.fresh_n)

    def str_term(self, name):
        return z3.Const(name, Str)

    def is_strty(self, t):
        return t['k'] == 'str' or (t['k'] == 'adt' and t['s'] == 'std::string::String')

    def boxty(self, t):
        return t['k'] == 'adt' and (t['s'].startswith('std::boxed::Box<') or t['s'].startswith('std::borrow::Cow<'))

    def mk(self, tyid, name):
        """A symbolic value of the type."""
        t = self.p.T[tyid]
        k = t['k']
        if k == 'bool':
            return z3.Bool(name)
        if k == 'int':
            v = z3.Int(name)
            if name not in self.symcache:
                self.symcache[name] = v
                lo, hi = int_range(t)
                self.th.ax(z3.And(v >= lo, v <= hi))
            return v
        if k == 'char':
            v = z3.Int(name)
            if name not in self.symcache:
                self.symcache[name] = v
                self.th.ax(z3.And(v >= 0, v <= 0x10ffff))
            return v
        if k == 'float':
            return z3.Const(name, F32 if t['s'] == 'f32' else F64)
        if self.is_strty(t):
            return z3.Const(name, Str)
        if k == 'ref':
            return RefV(self.mk(t['ty'], name))
        if k == 'tuple':
            if not t['elems']:
                return UNIT
            return Tup([self.mk(e, '%s.%d' % (name, i)) for i, e in enumerate(t['elems'])])
        if k == 'adt':
            s = t['s']
            if s.startswith('std::boxed::Box<') or s.startswith('std::borrow::Cow<'):
                a = t['args'][-1] if s.startswith('std::borrow') else t['args'][0]
                return self.mk(a, name)
            if s.startswith('std::vec::Vec<'):
                return Vec((('s', self.seq(name, t['args'][0])),))
            if t['name'].endswith('namespace::Namespace'):
                return Obj('NS', parts=(('x', name),))
            if t['enum'] or (t['variants'] and t['variants'][0]['fields']) or t['variants']:
                return Sym(tyid, name)
            return z3.Const(name, Val)
        if k == 'slice':
            return Vec((('s', self.seq(name, t['elem'])),))
        if k in ('other', 'dyn', 'fnptr', 'ptr'):
            return z3.Const(name, Val)
        if k == 'array':
            return Arr([self.mk(t['elem'], '%s.%d' % (name, i)) for i in range(t['len'] or 0)])
        raise Unsupported('symbolic value of type %s' % t['s'])

    def seq(self, name, elemty, elem=None):
        return Seq(name, elemty, elem if elem is not None else self.mk(elemty, name + '.$'))

    def disc_of(self, v):
        """variant index of an enum value: python int or z3 Int"""
        if isinstance(v, Adt):
            return v.var
        if isinstance(v, Sym):
            n = v.name + '.d'
            d = self.symcache.get(n)
            if d is None:
                d = z3.Int(n)
                self.symcache[n] = d
                self.th.ax(z3.And(d >= 0, d < len(self.p.T[v.ty]['variants'])))
            return d
        raise Unsupported('discriminant of %r' % (v,))

    def symfield(self, v, var, i):
        t = self.p.T[v.ty]
        f = t['variants'][var]['fields'][i]
        nm = '%s.%s%d' % (v.name, ('V%d.' % var) if t['enum'] else '', i)
        return self.mk(f['ty'], nm)

    def expand(self, v, var):
        t = self.p.T[v.ty]
        return Adt(v.ty, var, [self.symfield(v, var, i) for i in range(len(t['variants'][var]['fields']))])

    # ------------------------------------------------------------------ structural equality
    def eq(self, a, b, depth=0):
        if a is b:
            return True
        if depth > 14:
            raise Unsupported('deep equality')
        if isinstance(a, RefV):
            a = a.v
        if isinstance(b, RefV):
            b = b.v
        if isinstance(a, str):
            a = self.th.lit(a)
        if isinstance(b, str):
            b = self.th.lit(b)
        if isinstance(a, (int, bool)) and isinstance(b, (int, bool)):
            return a == b
        if is_z3(a) or is_z3(b):
            if is_z3(a) and is_z3(b):
                if a.eq(b):
                    return True
                if a.sort() != b.sort():
                    raise Unsupported('equality of different sorts %s %s' % (a, b))
                if a.sort() == Str:
                    x, y = self.th.litval(a), self.th.litval(b)
                    if x is not None and y is not None:
                        return x == y
                return a == b
            z, c = (a, b) if is_z3(a) else (b, a)
            if isinstance(c, bool):
                return z if c else z3.Not(z)
            if isinstance(c, int):
                return z == c
            raise Unsupported('equality %r %r' % (a, b))
        if isinstance(a, Sym) and isinstance(b, Sym) and a.name == b.name:
            return True
        if isinstance(a, (Sym, Adt)) and isinstance(b, (Sym, Adt)):
            t = self.p.T[a.ty]
            da, db = self.disc_of(a), self.disc_of(b)
            out = []
            if t['enum']:
                de = self.eq(da, db) if not (isinstance(da, int) and isinstance(db, int)) else da == db
                if de is False:
                    return False
                out.append(de)
            for vi, v in enumerate(t['variants']):
                if isinstance(da, int) and da != vi:
                    continue
                if isinstance(db, int) and db != vi:
                    continue
                fe = []
                for i in range(len(v['fields'])):
                    fe.append(self.eq(self.fld(a, vi, i), self.fld(b, vi, i), depth + 1))
                c = AND(*fe)
                if c is True:
                    continue
                if isinstance(da, int) or isinstance(db, int):
                    out.append(c)
                else:
                    out.append(IMP(da == vi, c))
            return AND(*out)
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fields) == len(b.fields):
            return AND(*[self.eq(x, y, depth + 1) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Arr) and isinstance(b, Arr):
            if len(a.items) != len(b.items):
                return False
            return AND(*[self.eq(x, y, depth + 1) for x, y in zip(a.items, b.items)])
        if isinstance(a, Vec) and isinstance(b, Vec):
            pa, pb = list(a.parts), list(b.parts)
            conds = []
            while pa and pb and pa[0][0] == pb[0][0]:
                x, y = pa[0], pb[0]
                if x[0] == 'e':
                    conds.append(self.eq(x[1], y[1], depth + 1))
                elif self.canon_part(x) != self.canon_part(y):
                    break
                pa.pop(0)
                pb.pop(0)
            if not pa and not pb:
                return AND(*conds)
            if all(p[0] == 'e' for p in pa) and all(p[0] == 'e' for p in pb) and len(pa) != len(pb):
                return False
            return z3.Bool('veq[%s|%s]' % tuple(sorted([self.canon(a), self.canon(b)])))
        if isinstance(a, Obj) and isinstance(b, Obj):
            if self.canon(a) == self.canon(b):
                return True
            if a.kind == b.kind:
                return z3.Bool('oeq[%s|%s]' % tuple(sorted([self.canon(a), self.canon(b)])))
        raise Unsupported('equality of %r and %r' % (a, b))

    def fld(self, v, var, i):
        if isinstance(v, Adt):
            return v.fields[i]
        return self.symfield(v, var, i)

    # ------------------------------------------------------------------ canonical text of a value
    def canon(self, v):
        if is_z3(v):
            k = v.get_id()
            c = self.canoncache.get(k)
            if c is None:
                c = v.sexpr()
                self.canoncache[k] = c
                self.th.keep.append(v)
            return c
        if isinstance(v, (int, bool, str)) or v is None:
            return repr(v)
        if isinstance(v, Sym):
            return '@' + v.name
        if isinstance(v, Adt):
            return '{%d#%s:%s}' % (v.ty, v.var, ','.join(self.canon(f) for f in v.fields))
        if isinstance(v, Tup):
            return '(%s)' % ','.join(self.canon(f) for f in v.fields)
        if isinstance(v, Arr):
            return 'A[%s]' % ','.join(self.canon(f) for f in v.items)
        if isinstance(v, RefV):
            return '&' + self.canon(v.v)
        if isinstance(v, Ptr):
            return 'P(%s%s)' % (v.cell, v.path)
        if isinstance(v, Vec):
            return 'V[%s]' % ';'.join(self.canon_part(p) for p in v.parts)
        if isinstance(v, Clo):
            return 'C%d(%s)' % (v.ty, ','.join(self.canon(f) for f in v.fields))
        if isinstance(v, FnV):
            return 'F(%s)' % v.fn.get('key') or v.fn.get('name')
        if isinstance(v, Obj):
            return '%s(%s)' % (v.kind, ','.join('%s=%s' % (k, self.canon(x)) for k, x in sorted(v.a.items())))
        if isinstance(v, Undef):
            return '_'
        if isinstance(v, Seq):
            return 'S(%s)' % v.name
        if isinstance(v, (tuple, list)):
            return '<%s>' % ','.join(self.canon(x) for x in v)
        return repr(v)

    def canon_part(self, p):
        if p[0] == 'e':
            return 'e' + self.canon(p[1])
        if p[0] == 's':
            return 's' + p[1].name
        if p[0] == 'F':
            return 'F%s{%s}' % (p[1].name, '|'.join(sorted(
                '%s=>%s' % ('&'.join(sorted(self.canon(g) for g in gs)), ';'.join(self.canon_part(x) for x in ps))
                for gs, ps in p[2])))
        return repr(p)

    # ------------------------------------------------------------------ strings
    def strval(self, v):
        """The Str term of a string-like value (peels references)."""
        while isinstance(v, RefV):
            v = v.v
        if isinstance(v, str):
            return self.th.lit(v)
        if is_z3(v) and v.sort() == Str:
            return v
        if isinstance(v, Obj) and v.kind == 'QName':
            return v.a['s']
        raise Unsupported('not a string: %r' % (v,))

    def cat(self, parts):
        flat = []
        for p in parts:
            p = self.strval(p)
            for q in self.catparts.get(p.get_id(), [p]):
                lv = self.th.litval(q)
                if lv == '':
                    continue
                if flat and lv is not None and self.th.litval(flat[-1]) is not None:
                    flat[-1] = self.th.lit(self.th.litval(flat[-1]) + lv)
                else:
                    flat.append(q)
        if not flat:
            return self.th.lit('')
        if len(flat) == 1:
            return flat[0]
        f = self.th.func('cat%d' % len(flat), *([Str] * (len(flat) + 1)))
        t = f(*flat)
        if t.get_id() not in self.catparts:
            self.catparts[t.get_id()] = flat
            self.th.keep.append(t)
            if any(self.th.litval(q) for q in flat):
                self.th.ax(t != self.th.lit(''))
        return t

    # ------------------------------------------------------------------ places
    def cellof(self, fr, local):
        return (fr.fid, local)

    def load(self, st, cell, path=()):
        v = st.store.get(cell, UNDEF)
        for e in path:
            v = self.proj(v, e)
        return v

    def proj(self, v, e):
        kind = e[0]
        if kind == 'f':
            _, var, i = e
            if isinstance(v, Adt):
                if var is not None and v.var != var:
                    raise Unsupported('field of variant %s of %r' % (var, v))
                return v.fields[i]
            if isinstance(v, Sym):
                return self.symfield(v, var or 0, i)
            if isinstance(v, (Tup, Clo)):
                return v.fields[i]
            if isinstance(v, Ptr) and v.cell[0] == 'ubox':
                return v        # the pointer inside a box being filled
            raise Unsupported('field %s of %r' % (e, v))
        if kind == 'i':
            if isinstance(v, Arr):
                return v.items[e[1]]
            if isinstance(v, Vec) and all(p[0] == 'e' for p in v.parts):
                return v.parts[e[1]][1]
            raise Unsupported('index of %r' % (v,))
        raise Unsupported('projection %r' % (e,))

    def update(self, v, path, new):
        if not path:
            return new
        e = path[0]
        if e[0] == 'f':
            _, var, i = e
            if isinstance(v, Sym):
                v = self.expand(v, var or 0)
            if isinstance(v, Adt):
                f = list(v.fields)
                f[i] = self.update(f[i], path[1:], new)
                return Adt(v.ty, v.var, f)
            if isinstance(v, Tup):
                f = list(v.fields)
                f[i] = self.update(f[i], path[1:], new)
                return Tup(f)
            if isinstance(v, Clo):
                f = list(v.fields)
                f[i] = self.update(f[i], path[1:], new)
                return Clo(v.ty, f)
        if e[0] == 'i' and isinstance(v, Arr):
            f = list(v.items)
            f[e[1]] = self.update(f[e[1]], path[1:], new)
            return Arr(f)
        if e[0] == 'i' and isinstance(v, Vec) and all(p[0] == 'e' for p in v.parts):
            f = list(v.parts)
            f[e[1]] = ('e', self.update(f[e[1]][1], path[1:], new))
            return Vec(f)
        raise Unsupported('update of %r at %r' % (v, path))

    def save(self, st, cell, path, new):
        if not path:
            st.store[cell] = new
        else:
            st.store[cell] = self.update(st.store.get(cell, UNDEF), tuple(path), new)

    def resolve(self, st, fr, place):
        """-> ('cell', cell, path) | ('val', value)"""
        local, projs = place
        cell = (fr.fid, local)
        path = []
        val = None
        mode = 'cell'
        ty = fr_locals(self, fr)[local]
        var = None
        for e in projs:
            k = e[0]
            if k == 'd':
                cur = self.load(st, cell, path) if mode == 'cell' else val
                if isinstance(cur, RefV):
                    mode, val = 'val', cur.v
                elif isinstance(cur, Ptr):
                    mode, cell, path = 'cell', cur.cell, list(cur.path)
                elif ty is not None and self.boxty(self.p.T[ty]):
                    pass
                else:
                    raise Unsupported('deref of %r' % (cur,))
                var = None
                ty = self.p.T[ty].get('ty') if ty is not None else None
                continue
            if k == 'v':
                var = e[1]
                continue
            if k == 'f':
                cur = self.load(st, cell, path) if mode == 'cell' else val
                if ty is not None and self.p.T[ty] and self.boxty(self.p.T[ty]):
                    ty = e[2]
                    var = None
                    continue        # Box internals are transparent
                if ty is not None and self.p.T[ty] and self.p.T[ty]['k'] == 'adt' and \
                        short(self.p.T[ty]['name']) in ('Unique', 'NonNull', 'ManuallyDrop', 'MaybeDangling') and not isinstance(cur, (Adt, Sym)):
                    ty = e[2]
                    var = None
                    continue
                pe = ('f', var, e[1])
                ty = e[2]
                var = None
            elif k == 'i':
                idx = self.load(st, (fr.fid, e[1]))
                if not isinstance(idx, int):
                    raise Unsupported('symbolic index')
                pe = ('i', idx)
                ty = None
            elif k == 'c':
                if e[3]:
                    cur = self.load(st, cell, path) if mode == 'cell' else val
                    n = len(cur.items) if isinstance(cur, Arr) else len(cur.parts)
                    pe = ('i', n - e[1])
                else:
                    pe = ('i', e[1])
                ty = None
            else:
                raise Unsupported('projection %r' % (e,))
            if mode == 'cell':
                path = path + [pe]
            else:
                val = self.proj(val, pe)
        if mode == 'cell':
            return ('cell', cell, tuple(path))
        return ('val', val)

    def read(self, st, fr, place):
        r = self.resolve(st, fr, place)
        if r[0] == 'val':
            return r[1]
        v = self.load(st, r[1], r[2])
        if isinstance(v, Undef):
            raise Unsupported('read of uninitialised %s' % (place,))
        return v

    def write(self, st, fr, place, v):
        r = self.resolve(st, fr, place)
        if r[0] == 'val':
            raise Unsupported('write through a shared reference')
        self.save(st, r[1], r[2], v)

    # ------------------------------------------------------------------ operands and rvalues
    def const(self, c):
        t = self.p.T[c['ty']]
        return self.constv(c['val'], t, c['ty'])

    def constv(self, v, t, tyid):
        k = t['k']
        if 'u' in v and v['u'] is not None and v['u'] != '':
            n = int(v['u'])
            return bool(n) if k == 'bool' else n
        if v.get('zst'):
            if k == 'fndef':
                return FnV(t['fn'])
            if k == 'tuple':
                return UNIT
            if k == 'closure':
                return Clo(tyid, ())
            if k == 'adt':
                return Adt(tyid, 0, [self.zst(f['ty']) for f in (t['variants'][0]['fields'] if t['variants'] else [])])
            if k == 'array':
                return Arr([])
            return UNIT
        if 'ref' in v:
            r = v['ref']
            inner = self.p.T[t['ty']]
            if 'str' in r:
                return RefV(self.th.lit(r['str']))
            return RefV(self.constv(r, inner, t['ty']))
        if 'arr' in v:
            et = t.get('elem')
            if all('u' in x for x in v['arr']) and self.p.T[et]['k'] == 'int':
                return Arr([int(x['u']) for x in v['arr']])
            return Arr([self.constv(x, self.p.T[et], et) for x in v['arr']])
        if 'tuple' in v:
            return Tup([self.constv(x, self.p.T[e], e) for x, e in zip(v['tuple'], t['elems'])])
        if 'adt' in v:
            if self.is_strty(t):
                return self.th.lit('')
            if t['s'].startswith('std::vec::Vec<'):
                return Vec(())
            if t['name'].endswith('namespace::Namespace'):
                return Obj('NS', parts=())
            fs = t['variants'][v['adt']]['fields']
            return Adt(tyid, v['adt'], [self.constv(x, self.p.T[f['ty']], f['ty']) for x, f in zip(v['fields'], fs)])
        if 'fbits' in v:
            import struct
            b = int(v['fbits'])
            x = struct.unpack('<f', struct.pack('<I', b))[0] if t['s'] == 'f32' else struct.unpack('<d', struct.pack('<Q', b))[0]
            return z3.Const('%s:%r' % (t['s'], x), F32 if t['s'] == 'f32' else F64)
        if 'dangling' in v:
            inner = self.p.T[t['ty']]
            if inner['k'] == 'str':
                return RefV(self.th.lit(''))
            return RefV(Arr([]))
        if 'fnptr' in v or 'static' in v or 'unk' in v:
            return z3.Const(self.fresh('const'), Val)
        raise Unsupported('constant %r of type %s' % (v, t['s']))

    def zst(self, tyid):
        return self.constv({'zst': True}, self.p.T[tyid], tyid)

    def operand(self, st, fr, o):
        if 'copy' in o:
            return self.read(st, fr, o['copy'])
        if 'move' in o:
            return self.read(st, fr, o['move'])
        if 'const' in o:
            return self.const(o['const'])
        if 'rtcheck' in o:
            return False
        raise Unsupported('operand %r' % o)

    def rvalue(self, st, fr, r, destty):
        k = r['k']
        if k == 'use':
            return self.operand(st, fr, r['o'])
        if k in ('ref', 'addr'):
            mut = r['mut'] is True or r['mut'] == 'Mut'
            pl = r['p']
            if not mut:
                x = self.resolve(st, fr, pl)
                if x[0] == 'val':
                    return RefV(x[1])
                return RefV(self.load(st, x[1], x[2]))
            x = self.resolve(st, fr, pl)
            if x[0] == 'val':
                return RefV(x[1])
            return Ptr(x[1], x[2])
        if k == 'agg':
            ops = [self.operand(st, fr, o) for o in r['ops']]
            a = r['a']
            if a == 'tuple':
                return Tup(ops) if ops else UNIT
            if a == 'array':
                return Arr(ops)
            if a == 'closure':
                return Clo(r['ty'], ops)
            if a == 'adt':
                t = self.p.T[r['ty']]
                if t['s'].startswith('std::borrow::Cow<'):
                    v = ops[0]
                    return v.v if isinstance(v, RefV) and r['v'] == 0 else v
                if r.get('active') is not None:
                    raise Unsupported('union')
                return Adt(r['ty'], r['v'], ops)
            raise Unsupported('aggregate %s' % a)
        if k in ('bin', 'cbin'):
            return self.binop(r['op'], self.operand(st, fr, r['a']), self.operand(st, fr, r['b']), k == 'cbin', self.opty(fr, r['a']))
        if k == 'un':
            v = self.operand(st, fr, r['o'])
            if r['op'] == 'Not':
                if isinstance(v, bool):
                    return not v
                if z3.is_bool(v):
                    return z3.Not(v)
            if r['op'] == 'Neg':
                return -v
            if r['op'] == 'PtrMetadata':
                while isinstance(v, RefV):
                    v = v.v
                if isinstance(v, Vec):
                    return self.veclen(v)
                if isinstance(v, Arr):
                    return len(v.items)
            raise Unsupported('unary %s of %r' % (r['op'], v))
        if k == 'disc':
            v = self.read(st, fr, r['p'])
            d = self.disc_of(v)
            vs = self.p.T[v.ty]['variants']
            if isinstance(d, int):
                return int(vs[d]['discr'])
            if any(int(x['discr']) != i for i, x in enumerate(vs)):
                e = z3.IntVal(int(vs[-1]['discr']))
                for i in range(len(vs) - 2, -1, -1):
                    e = z3.If(d == i, z3.IntVal(int(vs[i]['discr'])), e)
                return e
            return d
        if k == 'cast':
            v = self.operand(st, fr, r['o'])
            c = r['c']
            tt = self.p.T[r['ty']]
            if c.startswith('IntToInt'):
                if isinstance(v, bool):
                    v = int(v)
                if is_z3(v) and z3.is_bool(v):
                    v = z3.If(v, z3.IntVal(1), z3.IntVal(0))
                if tt['k'] == 'int':
                    lo, hi = int_range(tt)
                    if isinstance(v, int):
                        n = 1 << tt['bits']
                        v &= n - 1
                        return v - n if v > hi else v
                    st_ = self.th.prove(st.pc, z3.And(v >= lo, v <= hi))
                    if st_ == 'proved':
                        return v
                    raise Unsupported('wrapping cast')
                return v
            if isinstance(v, Ptr) and v.cell[0] == 'ubox':
                return Obj('Addr') if tt['k'] == 'int' else v
            if c.startswith('PointerCoercion') or c.startswith('PtrToPtr') or c.startswith('Transmute') or c.startswith('Subtype'):
                if isinstance(v, Arr) and tt['k'] == 'ref':
                    return v
                if 'ReifyFnPointer' in c or 'ClosureFnPointer' in c:
                    return v
                if not isinstance(v, (RefV, Ptr, FnV, Clo)) and tt['k'] == 'ptr':
                    return RefV(v)        # Box internals
                return v
            raise Unsupported('cast %s' % c)
        if k == 'len':
            v = self.read(st, fr, r['p'])
            return self.veclen(v)
        if k == 'repeat':
            return Arr([self.operand(st, fr, r['o'])] * (r['n'] or 0))
        raise Unsupported('rvalue %s' % r.get('s', k))

    def veclen(self, v):
        if isinstance(v, Arr):
            return len(v.items)
        n = 0
        sym = []
        for p in v.parts:
            if p[0] == 'e':
                n += 1
            else:
                t = z3.Int('len[%s]' % self.canon_part(p))
                self.th.ax(t >= 0)
                sym.append(t)
        if not sym:
            return n
        return sum(sym[1:], sym[0]) + n if n else sum(sym[1:], sym[0])

    def opty(self, fr, o):
        if 'const' in o:
            return self.p.T[o['const']['ty']]
        pl = o.get('copy') or o.get('move')
        ty = fr_locals(self, fr)[pl[0]]
        for e in pl[1]:
            if e[0] == 'd':
                ty = self.p.T[ty].get('ty')
            elif e[0] == 'f':
                ty = e[2]
            elif e[0] == 'v':
                pass
            else:
                return None
            if ty is None:
                return None
        return self.p.T[ty]

    def binop(self, op, a, b, checked, ty):
        if isinstance(a, Obj) and a.kind == 'Addr' and isinstance(b, int):
            # the address of a fresh allocation: not null, and aligned
            if op == 'BitAnd' and b < 16:
                return 0
            if op in ('Eq', 'Ne') and b == 0:
                return op == 'Ne'
            raise Unsupported('address arithmetic')
        if op in ('Eq', 'Ne'):
            e = self.eq(a, b)
            return e if op == 'Eq' else NOT(e)
        num = lambda x: isinstance(x, int) or (is_z3(x) and z3.is_int(x))
        if op in ('BitAnd', 'BitOr', 'BitXor') and not (isinstance(a, int) and isinstance(b, int) and not isinstance(a, bool)):
            if (isinstance(a, bool) or z3.is_bool(a)) and (isinstance(b, bool) or z3.is_bool(b)):
                if op == 'BitAnd':
                    return AND(a, b)
                if op == 'BitOr':
                    return OR(a, b)
                return NOT(self.eq(a, b))
            raise Unsupported('bit operation')
        if not num(a) or not num(b):
            raise Unsupported('%s on %r, %r' % (op, a, b))
        if op in ('Lt', 'Le', 'Gt', 'Ge'):
            return {'Lt': lambda: a < b, 'Le': lambda: a <= b, 'Gt': lambda: a > b, 'Ge': lambda: a >= b}[op]()
        if op == 'Cmp':
            raise Unsupported('cmp')
        base = op.replace('Unchecked', '').replace('WithOverflow', '')
        chk = checked or op.endswith('WithOverflow')
        if base == 'Add':
            v = a + b
        elif base == 'Sub':
            v = a - b
        elif base == 'Mul':
            if not isinstance(a, int) and not isinstance(b, int):
                raise Unsupported('nonlinear')
            v = a * b
        elif base == 'BitAnd':
            v = a & b
        elif base == 'BitOr':
            v = a | b
        else:
            raise Unsupported('operation %s' % op)
        if ty is None or ty['k'] != 'int':
            raise Unsupported('operation on %s' % (ty and ty['s']))
        lo, hi = int_range(ty)
        if isinstance(v, int):
            ov = not (lo <= v <= hi)
            w = v if not ov else ((v - lo) % (1 << ty['bits'])) + lo
        else:
            v = z3.simplify(v)
            if z3.is_int_value(v):
                v = v.as_long()
                ov = not (lo <= v <= hi)
            else:
                ov = z3.Or(v < lo, v > hi)
            w = v
        if chk:
            return Tup([w, ov])
        if ov is not False and is_z3(ov):
            raise Unsupported('unchecked wrapping arithmetic')
        return w

    # ------------------------------------------------------------------ assumptions
    def assume(self, st, c):
        """Add c to the path; False if it becomes infeasible."""
        if c is True:
            return True
        if c is False:
            return False
        k = c.get_id()
        kn = st.known.get(k)
        if kn is True:
            return True
        if kn is False:
            return False
        if self.th.check(st.pc + [c]) == 'unsat':
            return False
        st.pc.append(c)
        st.known[k] = True
        n = z3.Not(c)
        self.th.keep.append((c, n))
        st.known[n.get_id()] = False
        if z3.is_not(c):
            st.known[c.arg(0).get_id()] = False
        return True

    def branch(self, st, cond):
        """-> list of (state, bool)"""
        if isinstance(cond, bool):
            return [(st, cond)]
        kn = st.known.get(cond.get_id())
        if kn is not None:
            return [(st, kn)]
        out = []
        n = z3.Not(cond)
        self.th.keep.append(n)
        a = st.fork()
        if self.assume(a, cond):
            out.append((a, True))
        b = st.fork()
        if self.assume(b, n):
            out.append((b, False))
        return out

    def cases(self, st, v, enumty):
        """Fork on the variant of an enum value -> list of (state, variant index)."""
        d = self.disc_of(v)
        if isinstance(d, int):
            return [(st, d)]
        out = []
        for i in range(len(self.p.T[v.ty]['variants'])):
            s = st.fork()
            if self.assume(s, d == i):
                out.append((s, i))
        return out

    # ------------------------------------------------------------------ running
    def push(self, st, key, args, dest, ret, tag=None):
        f = self.p.fn(key)
        if len(st.frames) > 60:
            raise Unsupported('call depth')
        st.nfid += 1
        fid = st.nfid
        fr = Frame(key, fid, 0, 0, dest, ret, tag)
        if f.get('spread') is not None and len(args) != f['argc']:
            sp = f['spread']
            head = args[:sp - 1]
            rest = args[sp - 1:]
            args = head + [Tup(rest)]
        if len(args) != f['argc']:
            raise Unsupported('arity of %s' % f['name'])
        for i, a in enumerate(args):
            st.store[(fid, i + 1)] = a
        st.frames.append(fr)
        nm = f.get('def') or f['name']
        self.inlined[nm] = self.inlined.get(nm, 0) + 1
        return st

    def run(self, st, stop_depth=None, on_block=None):
        """Run to outcomes. With stop_depth the frame at that depth returning ends the run."""
        base = 0 if stop_depth is None else stop_depth
        saved = self.base_depth
        self.base_depth = base
        try:
            return self.run_(st, base)
        finally:
            self.base_depth = saved

    base_depth = 0
    onspin = None

    def run_(self, st, base):
        work = [st]
        outs = []
        while work:
            s = work.pop()
            try:
                while True:
                    r = self.step(s, base)
                    if r is None:
                        continue
                    if isinstance(r, Outcome):
                        outs.append(r)
                        self.npaths += 1
                        if self.npaths > self.MAXPATHS:
                            raise Unsupported('too many paths')
                        break
                    if not r:
                        break
                    s = r[0]
                    work.extend(r[1:])
            except Suspend as e:
                outs.append(Outcome(e.kind, s, e.value))
        return outs

    def where(self, st):
        out = []
        for fr in st.frames[-3:]:
            f = self.p.fns.get(fr.fn)
            out.append('%s:%s' % (f['name'] if f else fr.fn, f['blocks'][fr.bb]['line'] if f else '?'))
        return ' > '.join(out)

    def step(self, st, base):
        """Execute until the next control transfer. None: same state continues; list: successors."""
        fr = st.frames[-1]
        f = self.p.fn(fr.fn)
        b = f['blocks'][fr.bb]
        stmts = b['s']
        while fr.si < len(stmts):
            s = stmts[fr.si]
            fr.si += 1
            if s[0] == '=':
                v = self.rvalue(st, fr, s[2], None)
                self.write(st, fr, s[1], v)
            elif s[0] == 'setdisc':
                v = self.read(st, fr, s[1])
                if isinstance(v, Adt) and v.var == s[2]:
                    continue
                raise Unsupported('set discriminant')
            elif s[0] == 'assume':
                v = self.operand(st, fr, s[1])
                if isinstance(v, bool):
                    if not v:
                        return []
                elif not self.assume(st, v):
                    return []
        st.steps += 1
        if self.onspin is not None and st.steps > self.MAXSTEPS // 2 and b['t']['k'] in ('goto', 'switch', 'call'):
            self.onspin(st)
        if st.steps > self.MAXSTEPS:
            raise Unsupported('step limit in %s' % self.where(st))
        t = b['t']
        k = t['k']
        if k == 'goto':
            self.jump(st, fr, t['t'])
            return self.loopcheck(st)
        if k == 'switch':
            v = self.operand(st, fr, t['o'])
            if isinstance(v, bool):
                v = int(v)
            if isinstance(v, int):
                tgt = t['else']
                for x, y in t['br']:
                    if self.brval(x, t) == v:
                        tgt = y
                self.jump(st, fr, tgt)
                return self.loopcheck(st)
            out = []
            if z3.is_bool(v):
                for s2, val in self.branch(st, v):
                    tgt = t['else']
                    for x, y in t['br']:
                        if int(x) == int(val):
                            tgt = y
                    self.jump(s2, s2.frames[-1], tgt)
                    out.append(s2)
                return out
            if not z3.is_int(v):
                raise Unsupported('switch on %r' % (v,))
            neg = []
            for x, y in t['br']:
                c = v == self.brval(x, t)
                self.th.keep.append(c)
                s2 = st.fork()
                if self.assume(s2, c):
                    self.jump(s2, s2.frames[-1], y)
                    out.append(s2)
                neg.append(z3.Not(c))
            s2 = st.fork()
            self.th.keep.append(neg)
            if f['blocks'][t['else']]['t']['k'] == 'unreachable' and not f['blocks'][t['else']]['s']:
                return out
            if all(self.assume(s2, n) for n in neg):
                self.jump(s2, s2.frames[-1], t['else'])
                out.append(s2)
            return out
        if k == 'return':
            v = self.load(st, (fr.fid, 0))
            if isinstance(v, Undef):
                v = UNIT
            st.frames.pop()
            if len(st.frames) <= base:
                return Outcome('ret', st, v)
            self.drop_frame(st, fr)
            if fr.dest is not None:
                self.save(st, fr.dest[0], fr.dest[1], v)
            if fr.ret is None:
                return []
            c = st.frames[-1]
            self.jump(st, c, fr.ret)
            return None
        if k in ('drop',):
            self.jump(st, fr, t['t'])
            return None
        if k == 'assert':
            v = self.operand(st, fr, t['o'])
            exp = t['exp']
            out = []
            for s2, val in self.branch(st, v):
                if val == exp:
                    self.jump(s2, s2.frames[-1], t['t'])
                    out.append(s2)
                else:
                    out.append(('panic', s2, 'assertion: %s' % t['msg']))
            res = []
            for o in out:
                if isinstance(o, tuple):
                    self.extra.append(Outcome('panic', o[1], o[2] + ' at ' + self.where(o[1])))
                else:
                    res.append(o)
            return res
        if k == 'call':
            return self.call(st, fr, t)
        if k == 'unreachable':
            # reached only if the compiler's exhaustiveness reasoning is not visible here
            if self.th.check(st.pc) == 'unsat':
                return []
            raise Unsupported('unreachable block reached in %s' % self.where(st))
        if k in ('resume', 'abort'):
            return []
        raise Unsupported('terminator %s' % k)

    def drop_frame(self, st, fr):
        # cells of the frame stay (references into them cannot outlive it); drop plain garbage
        fid = fr.fid
        for c in [c for c in st.store if c[0] == fid]:
            del st.store[c]

    def brval(self, x, t):
        v = int(x)
        ty = self.p.T[t['ty']] if t.get('ty') is not None else None
        if ty and ty['k'] == 'int' and ty['signed']:
            n = 1 << ty['bits']
            if v >= n // 2:
                v -= n
        return v

    def jump(self, st, fr, bb):
        if bb is None:
            raise Unsupported('no target')
        fr.bb = bb
        fr.si = 0

    def loopcheck(self, st):
        return None

    def livecells(self, st):
        """Cells that the continuation of the state can still read. The top frame stands at the
        call in its current block; every other frame waits for the one above to return."""
        out = set()
        work = []
        n = len(st.frames)
        for i, fr in enumerate(st.frames):
            f = self.p.fn(fr.fn)
            if i == n - 1:
                t = f['blocks'][fr.bb]['t']
                L = set()
                for s in succs(t):
                    L |= liveness(f)[s]
                live = term_live(t, L)
            else:
                up = st.frames[i + 1]
                live = set(liveness(f)[up.ret]) if up.ret is not None else set()
                if up.dest is not None and not up.dest[1] and up.dest[0][0] == fr.fid:
                    live.discard(up.dest[0][1])
            for l in live:
                work.append((fr.fid, l))
        for c in st.store:
            if c[0] == 'root':
                work.append(c)
        while work:
            c = work.pop()
            if c in out:
                continue
            out.add(c)
            ps = []
            if c in st.store:
                ptrs(st.store[c], ps)
            work.extend(p.cell for p in ps)
        return out

    # ------------------------------------------------------------------ calls
    def call(self, st, fr, t):
        f = t['f']
        args = [self.operand(st, fr, a) for a in t['args']]
        if 'ptr' in f:
            fv = self.operand(st, fr, f['ptr'])
            return self.finish(st, fr, t, self.apply(st, fv, args))
        return self.dispatch(st, fr, t, f, args)

    def dest(self, st, fr, t):
        r = self.resolve(st, fr, t['dest'])
        if r[0] != 'cell':
            raise Unsupported('call destination')
        return (r[1], r[2])

    def finish(self, st, fr, t, res):
        """res: list of (state, value) | ('push', ...) results of a contract."""
        out = []
        for r in res:
            if r[0] == 'panic':
                self.extra.append(Outcome('panic', r[1], '%s at %s' % (r[2], self.where(r[1]))))
                continue
            s, v = r
            if v is None:
                out.append(s)       # the handler arranged the continuation itself
                continue
            f2 = s.frames[-1]
            self.write(s, f2, t['dest'], v)
            if t['t'] is None:
                continue
            self.jump(s, f2, t['t'])
            out.append(s)
        return out

    def dispatch(self, st, fr, t, f, args):
        h = self.lookup(f)
        if h is not None:
            nm = f['def'] or f['decl']
            res = h(self, st, Call(self, f, args, t, fr))
            self.used_contracts[nm] = self.used_contracts.get(nm, 0) + 1
            return self.finish(st, fr, t, res)
        d = f['decl']
        if d in ('std::ops::FnOnce::call_once', 'std::ops::FnMut::call_mut', 'std::ops::Fn::call'):
            tup = args[1]
            return self.invoke(st, fr, t, args[0], list(tup.fields) if isinstance(tup, Tup) else [tup])
        if f.get('key') and self.p.fns.get(f['key']):
            self.push(st, f['key'], args, self.dest(st, fr, t), t['t'])
            return None
        raise Unsupported('call to %s [%s] at %s' % (f['decl'], f.get('def'), self.where(st)))

    def invoke(self, st, fr, t, fv, args):
        """Call a closure or function value as the callee of the call terminator t."""
        self_v = fv
        while isinstance(fv, RefV):
            fv = fv.v
        if isinstance(fv, Ptr):
            tgt = self.load(st, fv.cell, fv.path)
            if isinstance(tgt, Ptr) or isinstance(tgt, RefV):
                return self.invoke(st, fr, t, tgt, args)
            fv = tgt
        if isinstance(fv, FnV):
            if fv.fn.get('rty') is not None:
                t = dict(t)
                t['rty'] = fv.fn['rty']
                t['argtys'] = fv.fn['argtys']
            return self.dispatch(st, fr, t, fv.fn, args)
        if isinstance(fv, Clo):
            ct = self.p.T[fv.ty]
            if not ct['body']:
                raise Unsupported('closure without a body')
            body = self.p.fn(ct['body'])
            selfty = self.p.T[body['locals'][1]]
            if selfty['k'] == 'ref':
                if selfty['mut']:
                    if isinstance(self_v, Ptr):
                        a0 = self_v
                    else:
                        # an FnMut closure owned by the caller: give it a cell of its own
                        st.nfid += 1
                        cell = (st.nfid, 'clo')
                        st.store[cell] = fv
                        a0 = Ptr(cell)
                else:
                    a0 = RefV(fv)
            else:
                a0 = fv
            self.push(st, ct['body'], [a0] + args, self.dest(st, fr, t), t['t'])
            return None
        raise Unsupported('call of %r' % (fv,))

    def lookup(self, f):
        for names, h in self.hooks:
            if names(f):
                return h
        return self.table(f)

    def table(self, f):
        from contracts import lookup
        return lookup(f)

    # nested synchronous call, used by contracts that take closures
    def call_sync(self, st, fv, args):
        """Apply a function value; -> list of (state, value). Panics go to self.extra."""
        s = st.fork()
        depth = len(s.frames)
        s.nfid += 1
        cell = (s.nfid, 'r')
        s.store[cell] = UNDEF
        stub = {'k': 'call', 'f': {}, 'args': [], 'dest': [0, []], 't': 0}
        # a stub frame whose local 0 receives the result
        fr = Frame('$stub', s.nfid, 0, 0, None, None)
        s.frames.append(fr)
        self.p.fns.setdefault('$stub', {'locals': [0], 'argc': 0, 'blocks': [{'s': [], 't': {'k': 'return'}, 'line': 0}], 'name': '$stub', 'def': '$stub', 'spread': None})
        r = self.invoke(s, fr, stub, fv, args)
        outs = []
        if r is None:
            work = [s]
        else:
            work = list(r)
        for w in work:
            outs.extend(self.run(w, stop_depth=depth))
        res = []
        for o in outs:
            if o.kind == 'ret':
                res.append((o.st, o.value))
            elif o.kind == 'panic':
                self.extra.append(o)
            else:
                raise Unsupported('%s inside a nested call' % o.kind)
        return res

    extra = None

    def run_all(self, st, stop_depth=None):
        """run() plus the panics collected on the way."""
        save = self.extra
        self.extra = []
        outs = self.run(st, stop_depth)
        outs = self.extra + outs
        self.extra = save
        return outs


def uses_place(pl, out, write=False):
    local, projs = pl
    if not write or any(e[0] == 'd' for e in projs):
        out.add(local)
    for e in projs:
        if e[0] == 'i':
            out.add(e[1])


def uses_operand(o, out):
    p = o.get('copy') or o.get('move')
    if p is not None:
        uses_place(p, out)


def uses_rvalue(r, out):
    for k in ('o', 'a', 'b'):
        if isinstance(r.get(k), dict):
            uses_operand(r[k], out)
    for o in r.get('ops', []):
        uses_operand(o, out)
    if 'p' in r:
        uses_place(r['p'], out)


def succs(t):
    k = t['k']
    if k == 'switch':
        return [y for _, y in t['br']] + [t['else']]
    return [t['t']] if t.get('t') is not None else []


def liveness(f):
    """live-in locals of every block (drops do not count as uses)"""
    L = f.get('$live')
    if L is not None:
        return L
    bs = f['blocks']
    L = [set() for _ in bs]
    preds = [[] for _ in bs]
    for i, b in enumerate(bs):
        for s in succs(b['t']):
            preds[s].append(i)
    work = list(range(len(bs)))
    while work:
        i = work.pop()
        b = bs[i]
        live = set()
        for s in succs(b['t']):
            live |= L[s]
        live = term_live(b['t'], live)
        for s in reversed(b['s']):
            if s[0] == '=':
                if not s[1][1]:
                    live.discard(s[1][0])
                uses_place(s[1], live, write=True)
                uses_rvalue(s[2], live)
            elif s[0] == 'assume':
                uses_operand(s[1], live)
            elif s[0] == 'setdisc':
                uses_place(s[1], live)
        if live != L[i]:
            L[i] = live
            work.extend(preds[i])
    f['$live'] = L
    return L


def term_live(t, live):
    live = set(live)
    k = t['k']
    if k == 'call':
        if not t['dest'][1]:
            live.discard(t['dest'][0])
        uses_place(t['dest'], live, write=True)
        for a in t['args']:
            uses_operand(a, live)
        if 'ptr' in t['f']:
            uses_operand(t['f']['ptr'], live)
    elif k in ('switch', 'assert'):
        uses_operand(t['o'], live)
    elif k == 'return':
        live.add(0)
    return live


def ptrs(v, out):
    if isinstance(v, Ptr):
        out.append(v)
    elif isinstance(v, (Adt, Tup, Clo)):
        for x in v.fields:
            ptrs(x, out)
    elif isinstance(v, Arr):
        for x in v.items:
            ptrs(x, out)
    elif isinstance(v, RefV):
        ptrs(v.v, out)
    elif isinstance(v, Vec):
        for p in v.parts:
            if p[0] == 'e':
                ptrs(p[1], out)
    elif isinstance(v, Obj):
        for x in v.a.values():
            if isinstance(x, tuple):
                for y in x:
                    if isinstance(y, tuple):
                        for z in y:
                            if not isinstance(z, (str, tuple)):
                                ptrs(z, out)
            else:
                ptrs(x, out)


def fr_locals(eng, fr):
    return eng.p.fn(fr.fn)['locals']


class Call:
    __slots__ = ('f', 'args', 't', 'fr', 'eng')

    def __init__(self, eng, f, args, t, fr):
        self.eng = eng
        self.f = f
        self.args = args
        self.t = t
        self.fr = fr

    @property
    def rty(self):
        return self.t.get('rty')

    @property
    def argtys(self):
        return self.t.get('argtys') or []
