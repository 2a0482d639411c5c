"""Contracts of the generated serialize / serialize_attributes functions, checked against their MIR."""
import re
import z3
from values import *
from engine import Engine, State, Suspend
import contracts as C
from corpus import BY, SCALARS
from report import Report
from foreach import normF
from rustgen import san


# -- contracts of the callees of generated code ----------------------------------------------------------
def selfty(eng, f):
    a = [x for x in f['declargs'] if isinstance(x, int)]
    return eng.p.T[a[0]]


def tyname(eng, t):
    return t['s'].split('::')[-1] if t['k'] == 'adt' and '<' not in t['s'] else t['s']


def is_trait(f, what):
    return f['decl'] == 'yaserde::' + what


def scalar_impl(eng, f):
    t = selfty(eng, f)
    return t['k'] in ('bool', 'int', 'char', 'float')


def push_body(eng, st, c):
    eng.push(st, c.f['key'], c.args, eng.dest(st, c.fr, c.t), c.t['t'])
    return [(st, None)]


def h_serialize(eng, st, c):
    """Contract of YaSerialize::serialize: on Ok it has appended Emit(T, v, skip, name)."""
    if len(st.frames) == 1 or scalar_impl(eng, c.f):
        return push_body(eng, st, c)
    v = C.deref(eng, st, c.args[0])
    p = c.args[1]
    while isinstance(p, RefV):
        p = p.v
    if not isinstance(p, Ptr):
        raise Unsupported('serializer argument')
    s = eng.load(st, p.cell, p.path)
    while isinstance(s, Ptr):
        p = s
        s = eng.load(st, p.cell, p.path)
    ix = ser_fields(eng, s)
    ew, skip, name = s.fields[ix[0]], s.fields[ix[1]], s.fields[ix[2]]
    bad = st.fork()
    bad.ghost['child_err'] = True
    fs = list(s.fields)
    fs[ix[0]] = ew.with_(log=Vec(ew.a['log'].parts + (('e', Obj('Emit', t=tyname(eng, selfty(eng, c.f)), v=v, skip=skip, name=name)),)))
    n = eng.fresh('after')
    fs[ix[1]] = z3.Bool(n + '.skip')
    fs[ix[2]] = eng.mk(eng.p.T[s.ty]['variants'][0]['fields'][ix[2]]['ty'], n + '.name')
    eng.save(st, p.cell, p.path, Adt(s.ty, s.var, fs))
    return [(bad, C.err(eng, c.rty, C.errval(eng, c.rty))), (st, C.ok(eng, c.rty))]


def ser_fields(eng, s):
    names = [f['name'] for f in eng.p.T[s.ty]['variants'][0]['fields']]
    return [names.index(n) for n in ('writer', 'skip_start_end', 'start_event_name')]


def attr_ty(eng):
    for s, i in eng.p.byname.items():
        if s.endswith('attribute::OwnedAttribute'):
            return i
    raise Unsupported('no OwnedAttribute type')


def attrs_of(eng, v):
    nm = 'attrs_of[%s]' % eng.canon(v)
    return ('s', Seq(nm, attr_ty(eng), eng.mk(attr_ty(eng), nm + '.$'), 'attrs_of'))


def h_serialize_attributes(eng, st, c):
    """Contract: appends the value's own attributes and namespaces to the ones passed in."""
    if len(st.frames) == 1 or scalar_impl(eng, c.f):
        return push_body(eng, st, c)
    v = C.deref(eng, st, c.args[0])
    a, n = C.deref(eng, st, c.args[1]), C.deref(eng, st, c.args[2])
    bad = st.fork()
    bad.ghost['child_err'] = True
    rt = eng.p.T[c.rty]['args'][0]
    r = Tup([Vec(a.parts + (attrs_of(eng, v),)), n.with_(parts=n.a['parts'] + (('x', 'ns_of[%s]' % eng.canon(v)),))])
    return [(bad, C.err(eng, c.rty, C.errval(eng, c.rty))), (st, C.ok(eng, c.rty, r))]


def content(eng, t, v):
    r = z3.Const('content[%s|%s]' % (t, eng.canon(v)), Str)
    eng.th.keep.append(r)
    return r


def h_content(eng, st, c):
    """Contract of to_string_content: the characters serialize writes without the own tags, or Err."""
    if len(st.frames) == 1:
        return push_body(eng, st, c)
    v = C.deref(eng, st, c.args[0])
    bad = st.fork()
    bad.ghost['child_err'] = True
    return [(bad, C.err(eng, c.rty, C.errval(eng, c.rty))), (st, C.ok(eng, c.rty, content(eng, tyname(eng, selfty(eng, c.f)), v)))]


def h_dflt(eng, st, c):
    return [(st, eng.mk(c.rty, 'const:' + C.short(c.f['decl'])))]


def pred_term(eng, name, v):
    r = z3.Bool('%s[%s]' % (name, eng.canon(v)))
    eng.th.keep.append(r)
    return r


def h_pred(eng, st, c):
    return [(st, pred_term(eng, C.short(c.f['decl']), C.deref(eng, st, c.args[1])))]


def common_hooks(eng):
    eng.hooks += [
        (lambda f: is_trait(f, 'YaSerialize::serialize'), h_serialize),
        (lambda f: is_trait(f, 'YaSerialize::serialize_attributes'), h_serialize_attributes),
        (lambda f: f['decl'] == 'yaserde::ser::to_string_content', h_content),
        (lambda f: re.search(r'(^|::)types::dflt_\w+$', f['decl']) is not None, h_dflt),
        (lambda f: re.search(r'::pred_\w+$', f['decl']) is not None, h_pred),
    ]


# -- the specification ---------------------------------------------------------------------------------------
def props_of(t, f=None):
    p = {'C01', 'C12'}
    if t.kind == 'enum':
        p |= {'C08'}
    if t.namespaces:
        p |= {'C07'}
    if f is None:
        return p | ({'C02'} if t.kind == 'struct' else set())
    if f.role == 'attr':
        p |= {'C04'}
    elif f.role in ('text', 'cdata'):
        p |= {'C14'}
    elif f.role == 'flatten':
        p |= {'C09'}
    elif t.kind == 'struct':
        p |= {'C02'}
    if f.skip or f.skip_if or f.default:
        p |= {'C06'}
    if f.base in SCALARS or f.base == 'String':
        p |= {'C13'}
    if f.base in BY and BY[f.base].prim:
        p |= {'C16'}
    if f.base in BY and BY[f.base].kind == 'enum':
        p |= {'C08'}
    return p


class SerSpec:
    def __init__(self, eng, t):
        self.eng = eng
        self.t = t

    def start(self, label, attrs=(), ns=()):
        eng = self.eng
        if isinstance(label, str):
            label = eng.th.lit(label)
        return ('e', Obj('Start', name=label, attrs=Vec(attrs), ns=Obj('NS', parts=tuple(ns))))

    END = ('e', Obj('End'))

    def chars(self, s):
        return ('e', Obj('Chars', s=s))

    def declared(self):
        th = self.eng.th
        return [('e', th.lit(p), th.lit(u)) for p, u in self.t.declared]

    def kind(self, base):
        return 'str' if base == 'String' else base

    def show(self, base, v):
        """Text of a scalar; content of a compound value."""
        if base in SCALARS or base == 'String':
            return C.display(self.eng, self.kind(base), v)
        return content(self.eng, base, v)

    def writes(self, f, val):
        """The condition under which the field is written at all."""
        eng = self.eng
        c = []
        if f.skip:
            return False
        if f.skip_if:
            c.append(NOT(pred_term(eng, 'pred_' + san(f.skip_if), val)))
        if f.default:
            ty = self.fty(f)
            c.append(NOT(eng.eq(val, eng.mk(ty, 'const:dflt_' + san(f.default)))))
        return AND(*c)

    def fty(self, f):
        i = [x.name for x in self.t.fields].index(f.name)
        return self.eng.p.T[self.ty]['variants'][0]['fields'][i]['ty']

    def split(self, st, cond):
        if isinstance(cond, bool):
            return [(st, cond)]
        return self.eng.branch(st.fork(), cond)

    def options(self, st, v):
        """-> (state, payload or None)"""
        eng = self.eng
        out = []
        for s, i in eng.cases(st.fork(), v, None):
            a = v if isinstance(v, Adt) else eng.expand(v, i)
            out.append((s, a.fields[0] if a.fields else None))
        return out

    def item(self, f, v, label):
        """What one present value of the field writes as an element."""
        if f.base in SCALARS or f.base == 'String':
            return [self.start(label), self.chars(self.show(f.base, v)), self.END]
        return [('e', Obj('Emit', t=f.base, v=v, skip=False, name=('some', self.eng.th.lit(label))))]

    def body(self, st, f, val):
        """-> list of (state, parts) of a non-attribute field"""
        eng = self.eng
        out = []
        for s, w in self.split(st, self.writes(f, val)):
            if not w:
                out.append((s, []))
                continue
            label = self.t.written(f)
            if f.role == 'text':
                if f.wrap == 'opt':
                    for s2, x in self.options(s, val):
                        out.append((s2, [self.chars(x if x is not None else eng.th.lit(''))]))
                else:
                    out.append((s, [self.chars(val)]))
            elif f.role == 'cdata':
                out.append((s, [self.start(label), ('e', Obj('CData', s=val)), self.END]))
            elif f.role == 'flatten':
                em = lambda v: [('e', Obj('Emit', t=f.base, v=v, skip=True, name=None))]
                if f.wrap == 'opt':
                    for s2, x in self.options(s, val):
                        out.append((s2, em(x) if x is not None else []))
                elif f.wrap == 'vec':
                    out.append((s, [('F', q[1], (((), tuple(em(q[1].elem))),)) for q in val.parts]))
                else:
                    out.append((s, em(val)))
            elif f.wrap == 'opt':
                for s2, x in self.options(s, val):
                    out.append((s2, self.item(f, x, label) if x is not None else []))
            elif f.wrap == 'vec':
                parts = []
                for q in val.parts:
                    parts.append(('F', q[1], (((), tuple(self.item(f, q[1].elem, label))),)))
                out.append((s, parts))
            else:
                out.append((s, self.item(f, val, label)))
        return out

    def attr(self, st, f, val):
        """-> list of (state, attribute parts)"""
        eng = self.eng
        out = []
        mk = lambda s: [('e', Obj('Attr', name=eng.th.lit(self.t.written(f)), value=s))]
        for s, w in self.split(st, self.writes(f, val)):
            if not w:
                out.append((s, []))
            elif f.wrap == 'opt':
                for s2, x in self.options(s, val):
                    out.append((s2, mk(self.show(f.base, x)) if x is not None else []))
            elif f.wrap == 'vec':
                for s2, e in self.split(s, C.vec_empty(eng, val)):
                    if e:
                        out.append((s2, []))
                    else:
                        q = val.parts[0][1]
                        words = Vec([('F', q, (((), (('e', self.show(f.base, q.elem)),)),))])
                        out.append((s2, mk(C.join_term(eng, words, eng.th.lit(' ')))))
            else:
                out.append((s, mk(self.show(f.base, val))))
        return out

    def own_attrs(self, st, v):
        """-> list of (state, attribute parts, namespace parts) of the own start tag"""
        t, eng = self.t, self.eng
        cur = [(st, [], [])]
        if t.kind == 'struct':
            for role in ('attr', 'flatten'):
                for i, f in enumerate(t.fields):
                    if f.role != role or role == 'flatten' and f.wrap == 'vec':
                        continue
                    val = eng.fld(v, 0, i)
                    if role == 'attr':
                        cur = [(s2, a + p, n) for s, a, n in cur for s2, p in self.attr(s, f, val)]
                    else:
                        nxt = []
                        for s, a, n in cur:
                            for s2, w in self.split(s, self.writes(f, val)):
                                vals = [(s2, None)] if not w else [(s2, val)] if f.wrap == 'plain' else self.options(s2, val)
                                for s3, x in vals:
                                    nxt.append((s3, a + ([attrs_of(eng, x)] if x is not None else []),
                                                n + ([('x', 'ns_of[%s]' % eng.canon(x))] if x is not None else [])))
                        cur = nxt
        elif t.tag:
            out = []
            for s, i in eng.cases(st.fork(), v, None):
                out.append((s, [('e', Obj('Attr', name=eng.th.lit(t.tag), value=eng.th.lit(t.variants[i].label)))], []))
            cur = out
        elif t.flatten:
            out = []
            for s, i in eng.cases(st.fork(), v, None):
                var = t.variants[i]
                if var.flatten:
                    x = (v if isinstance(v, Adt) else eng.expand(v, i)).fields[0]
                    out.append((s, None, None))      # unspecified
                else:
                    out.append((s, [], []))
            cur = out
        return [(s, a, None if n is None else self.declared() + n) for s, a, n in cur]

    def enum_body(self, st, v):
        t, eng = self.t, self.eng
        out = []
        for s, i in eng.cases(st.fork(), v, None):
            var = t.variants[i]
            label = t.written(var)
            pr = props_of(t, var.payload) if var.payload else props_of(t)
            a = v if isinstance(v, Adt) else eng.expand(v, i)
            nm = 'variant ' + var.name
            if var.named:
                cur = [(s, [])]
                for f, x in zip(var.named, a.fields):
                    cur = [(s3, g + [(nm + ', field ' + f.name, props_of(t, f), p)]) for s2, g in cur for s3, p in self.body(s2, f, x)]
                out += cur
                continue
            if var.payload is None:
                out.append((s, [(nm, pr, [] if t.tag else [self.chars(eng.th.lit(label))])]))
                continue
            f, x = var.payload, a.fields[0]

            def one(y):
                if f.base in SCALARS or f.base == 'String':
                    return [self.start(label), self.chars(self.show(f.base, y)), self.END]
                return [self.start(label, [attrs_of(eng, y)], [('x', 'ns_of[%s]' % eng.canon(y))]),
                        ('e', Obj('Emit', t=f.base, v=y, skip=True, name=None)), self.END]
            if var.flatten:
                out.append((s, [(nm, pr | {'C09'}, [('e', Obj('Emit', t=f.base, v=x, skip=True, name=None))])]))
            elif f.wrap == 'opt':
                for s2, y in self.options(s, x):
                    out.append((s2, [(nm, pr, one(y) if y is not None else [])]))
            elif f.wrap == 'vec':
                out.append((s, [(nm, pr, [('F', q[1], (((), tuple(one(q[1].elem))),)) for q in x.parts])]))
            else:
                out.append((s, [(nm, pr, one(x))]))
        return out

    def emission(self, st, v, skip, name):
        """-> list of (state, [(what, props, parts)])"""
        t, eng = self.t, self.eng
        self.ty = v.ty
        out = []
        for s, sk in ([(st, True)] if t.flatten else self.split(st, skip)):
            heads = [(s, [])]
            if not sk:
                heads = []
                for s2, a, n in self.own_attrs(s, v):
                    for s3, x in self.options(s2, name):
                        pr = props_of(t)
                        for f in (t.fields or []):
                            if f.role in ('attr', 'flatten'):
                                pr = pr | props_of(t, f)
                        if t.tag:
                            pr = pr | {'C04'}
                        heads.append((s3, [('own start tag', pr, [self.start(x if x is not None else t.root_written, a, n)])]))
            cur = heads
            if t.kind == 'struct':
                for i, f in enumerate(t.fields):
                    if f.role == 'attr':
                        continue
                    val = eng.fld(v, 0, i)
                    cur = [(s3, g + [('field ' + f.name, props_of(t, f), p)]) for s2, g in cur for s3, p in self.body(s2, f, val)]
            else:
                cur = [(s3, g + g2) for s2, g in cur for s3, g2 in self.enum_body(s2, v)]
            if not sk:
                cur = [(s2, g + [('own end tag', props_of(t), [self.END])]) for s2, g in cur]
            out += cur
        return out


# -- comparison -------------------------------------------------------------------------------------------------
class Cmp:
    def __init__(self, eng):
        self.eng = eng
        self.unknown = False

    def prove(self, pc, c):
        r = self.eng.th.prove(pc, c)
        if r == 'unknown':
            self.unknown = True
        return r == 'proved'

    def val(self, pc, a, b):
        eng = self.eng
        if isinstance(b, tuple) and b and b[0] == 'some':
            if isinstance(a, Sym) and a.name.endswith('.name'):
                return False
            if not isinstance(a, Adt) or not a.fields:
                return False
            return self.val(pc, a.fields[0], b[1])
        if b is None:
            d = eng.disc_of(a) if isinstance(a, (Adt, Sym)) else None
            if d is None:
                return False
            vs = eng.p.T[a.ty]['variants']
            i = [x for x, y in enumerate(vs) if not y['fields']][0]
            return d == i if isinstance(d, int) else self.prove(pc, d == i)
        if isinstance(b, bool) and isinstance(a, bool):
            return a == b
        if isinstance(b, bool) and is_z3(a):
            return self.prove(pc, a if b else z3.Not(a))
        try:
            e = eng.eq(C.peel(a), C.peel(b))
        except Unsupported:
            if eng.canon(a) == eng.canon(b):
                return True
            raise
        return self.prove(pc, e)

    def parts(self, pc, a, b):
        a, b = list(a), list(b)
        if len(a) != len(b):
            # symbolic sequences that are known empty do not count
            return False
        return all(self.part(pc, x, y) for x, y in zip(a, b))

    def part(self, pc, x, y):
        eng = self.eng
        x, y = normF(eng, x), normF(eng, y)
        if x[0] != y[0]:
            return False
        if x[0] == 's':
            return x[1].name == y[1].name
        if x[0] == 'F':
            if x[1].name != y[1].name:
                return False
            for g, p in x[2]:
                for h, q in y[2]:
                    cond = list(pc) + list(g) + list(h)
                    if eng.th.check(cond) == 'unsat':
                        continue
                    if not self.parts(cond, p, q):
                        return False
            return True
        if x[0] == 'e':
            return self.ev(pc, x[1], y[1])
        return eng.canon_part(x) == eng.canon_part(y)

    def ev(self, pc, a, b):
        a, b = C.peel(a), C.peel(b)
        if isinstance(a, Obj) and isinstance(b, Obj):
            if a.kind != b.kind:
                return False
            k = a.kind
            if k == 'Start':
                return self.val(pc, a.a['name'], b.a['name']) and self.multiset(pc, a.a['attrs'].parts, b.a['attrs'].parts) and self.ns(pc, a.a['ns'], b.a['ns'])
            if k in ('Chars', 'CData'):
                return self.val(pc, a.a['s'], b.a['s'])
            if k == 'End':
                return True
            if k == 'Attr':
                return self.val(pc, a.a['name'], b.a['name']) and self.val(pc, a.a['value'], b.a['value'])
            if k == 'Emit':
                return a.a['t'] == b.a['t'] and self.val(pc, a.a['v'], b.a['v']) and self.val(pc, a.a['skip'], b.a['skip']) and self.val(pc, a.a['name'], b.a['name'])
            if k == 'Copy':
                return self.val(pc, a.a['ev'], b.a['ev'])
            return False
        return self.val(pc, a, b)

    def multiset(self, pc, a, b):
        a, b = list(a), list(b)
        if len(a) != len(b):
            return False
        for y in b:
            for i, x in enumerate(a):
                if self.part(pc, x, y):
                    a.pop(i)
                    break
            else:
                return False
        return True

    def ns(self, pc, a, b):
        pa, pb = list(a.a['parts']), list(b.a['parts'])
        if len(pa) != len(pb):
            return False
        for y in pb:
            for i, x in enumerate(pa):
                if x[0] == y[0] and (x[0] == 'x' and x[1] == y[1] or x[0] == 'e' and self.val(pc, x[1], y[1]) and self.val(pc, x[2], y[2])):
                    pa.pop(i)
                    break
            else:
                return False
        return True


# -- running --------------------------------------------------------------------------------------------------------
def root_key(prog, name):
    for n, k in prog.roots.items():
        if n.split('::')[-1] == name:
            return k
    raise Unsupported('no root %s' % name)


def new_serializer(eng, sty):
    fs = eng.p.T[sty]['variants'][0]['fields']
    names = [f['name'] for f in fs]
    vals = []
    for f in fs:
        if f['name'] == 'writer':
            vals.append(Obj('EW', log=Vec(()), sink=None, inner=None, cfg=None))
        elif f['name'] == 'skip_start_end':
            vals.append(z3.Bool('skip'))
        elif f['name'] == 'start_event_name':
            vals.append(eng.mk(f['ty'], 'evname'))
        else:
            vals.append(eng.mk(f['ty'], 'ser_' + f['name']))
    return Adt(sty, 0, vals)


def verify_ser(prog, th, t, rep):
    eng = Engine(prog, th)
    common_hooks(eng)
    key = root_key(prog, 'root_ser_' + t.name)
    L = prog.fn(key)['locals']
    st = State()
    sty = prog.T[L[2]]['ty']
    ser = new_serializer(eng, sty)
    st.store[('root', 'w')] = ser
    ix = ser_fields(eng, ser)
    skip, name = ser.fields[ix[1]], ser.fields[ix[2]]
    v = eng.mk(prog.T[L[1]]['ty'], 'v')
    if t.kind == 'enum' and any(x.flatten for x in t.variants):
        st.pc.append(skip)
        st.pc.append(eng.disc_of(name) == 0)
    base = st.fork()
    eng.push(st, key, [RefV(v), Ptr(('root', 'w'))], None, None)
    outs = eng.run_all(st)
    subj = 'serialize of ' + t.name
    if not outs:
        raise Unsupported('no path')
    spec = SerSpec(eng, t)
    nok = 0
    for o in outs:
        faulty = 'fault' in o.st.ghost or 'child_err' in o.st.ghost
        if o.kind == 'panic':
            rep.add({'C12', 'C10', 'C01'} | props_of(t), subj, 'does not panic', 'refuted', o.value)
            continue
        if o.kind != 'ret':
            raise Unsupported('outcome %s' % o.kind)
        r = o.value
        okd = eng.p.T[r.ty]['variants'][r.var]['name'].split('::')[-1] == 'Ok'
        if faulty:
            rep.add({'C12'}, subj, 'Err when a write or a nested serialization failed', 'proved' if not okd else 'refuted', '' if not okd else 'returned Ok')
            continue
        rep.add({'C12'} | props_of(t), subj, 'Ok when nothing failed', 'proved' if okd else 'refuted', '' if okd else 'returned Err; path %s' % pathtxt(o.st))
        if not okd:
            continue
        nok += 1
        log = o.st.store[('root', 'w')].fields[ix[0]].a['log'].parts
        specs = []
        if t.prim:
            specs = prim_emission(eng, spec, o.st, v, skip, name, t)
        else:
            specs = spec.emission(o.st, v, skip, name)
        for s, groups in specs:
            compare(eng, rep, subj, s, log, groups)
    if not nok:
        rep.add(props_of(t), subj, 'some path returns Ok', 'refuted', 'vacuous')
    return eng


def pathtxt(st):
    return '; '.join(str(c) for c in st.pc[-8:])


def compare(eng, rep, subj, s, log, groups):
    cm = Cmp(eng)
    i = 0
    for gi, (what, props, parts) in enumerate(groups):
        seg = log[i:i + len(parts)]
        good = cm.parts(s.pc, seg, parts)
        if not good:
            pr = set(props)
            for gj in (gi - 1, gi + 1):
                if 0 <= gj < len(groups):
                    pr |= groups[gj][1]
            rep.add(pr, subj, what + ' is written as specified', 'unknown' if cm.unknown else 'refuted',
                    'specified %s; the code writes %s; when %s' % (parts, log[i:i + len(parts) + 2], pathtxt(s)))
            return
        rep.add(props, subj, what + ' is written as specified', 'proved')
        i += len(parts)
    last = groups[-1][1] if groups else {'C02'}
    rep.add(last, subj, 'nothing else is written', 'proved' if i == len(log) else 'refuted', '' if i == len(log) else 'extra %s' % (log[i:],))


def prim_emission(eng, spec, st, v, skip, name, t):
    """A primitive newtype: its Display text, inside an element unless skip is set."""
    out = []
    x = eng.fld(v, 0, 0)
    pr = {'C16', 'C12', 'C01'}
    for s, sk in spec.split(st, skip):
        for s2, n in spec.options(s, name):
            ch = ('text', pr, [spec.chars(C.hexdisp(eng, x) if t.hex else C.display(eng, t.prim if t.prim != 'String' else 'str', x))])
            if sk:
                out.append((s2, [ch]))
            else:
                out.append((s2, [('start tag', pr, [spec.start(n if n is not None else t.name)]), ch, ('end tag', pr, [spec.END])]))
    return out


def verify_sat(prog, th, t, rep):
    """serialize_attributes: source attributes and namespaces followed by the own ones."""
    eng = Engine(prog, th)
    common_hooks(eng)
    key = root_key(prog, 'root_sat_' + t.name)
    L = prog.fn(key)['locals']
    st = State()
    v = eng.mk(prog.T[L[1]]['ty'], 'v')
    a = eng.mk(L[2], 'srcattrs')
    n = Obj('NS', parts=(('x', 'srcns'),))
    eng.push(st, key, [RefV(v), a, n], None, None)
    outs = eng.run_all(st)
    subj = 'serialize_attributes of ' + t.name
    spec = SerSpec(eng, t)
    spec.ty = v.ty
    pr = (props_of(t) - {'C02'}) | {'C09', 'C04'}
    if not outs:
        raise Unsupported('no path')
    for o in outs:
        faulty = 'fault' in o.st.ghost or 'child_err' in o.st.ghost
        if o.kind == 'panic':
            rep.add(pr, subj, 'does not panic', 'refuted', o.value)
            continue
        r = o.value
        okd = eng.p.T[r.ty]['variants'][r.var]['name'].split('::')[-1] == 'Ok'
        if okd == faulty:
            rep.add(pr, subj, 'fails exactly when a nested serialization fails', 'refuted', pathtxt(o.st))
            continue
        rep.add({'C12'}, subj, 'fails exactly when a nested serialization fails', 'proved')
        if faulty:
            continue
        got = r.fields[0]
        specs = [(o.st, [], [])] if t.prim else spec.own_attrs(o.st, v)
        for s, ea, en in specs:
            if ea is None:
                continue
            cm = Cmp(eng)
            g1 = cm.multiset(s.pc, got.fields[0].parts, list(a.parts) + ea)
            rep.add(pr, subj, 'source attributes, then the own ones', 'proved' if g1 else 'unknown' if cm.unknown else 'refuted',
                    '' if g1 else 'specified %s got %s when %s' % (ea, got.fields[0], pathtxt(s)))
            g2 = cm.ns(s.pc, got.fields[1], Obj('NS', parts=tuple([('x', 'srcns')] + en)))
            rep.add(pr | {'C07'}, subj, 'source namespaces and the declared ones', 'proved' if g2 else 'unknown' if cm.unknown else 'refuted',
                    '' if g2 else 'specified %s got %s' % (en, got.fields[1]))
    return eng
