"""Loops over sequences of unknown length: one generic iteration from a havocked state gives the
loop's invariant (which cells only grow, which are overwritten, what each iteration appends)."""
import re
import z3
from values import *
from engine import Suspend, Outcome, short
import contracts as C


def normF(eng, p):
    """a mapped sequence that maps every element to itself is the sequence"""
    if p[0] == 'F' and len(p[2]) == 1 and not p[2][0][0] and len(p[2][0][1]) == 1:
        q = p[2][0][1][0]
        if q[0] == 'e' and eng.canon(C.peel(q[1])) == eng.canon(C.peel(p[1].elem)):
            return ('s', p[1])
    return p


def lits_of(eng, conds, elem_names):
    """string literals a path compares one of the given constants with"""
    out = set()

    def walk(e):
        if z3.is_eq(e):
            a, b = e.children()
            for x, y in ((a, b), (b, a)):
                if z3.is_const(x) and str(x.decl().name()) in elem_names and eng.th.litval(y) is not None:
                    out.add(eng.th.litval(y))
        for ch in e.children():
            walk(ch)
    for c in conds:
        if is_z3(c):
            walk(c)
    return out


def attr_parts(eng, seq, lits):
    """A symbolic attribute list seen as: the attribute of each literal name if present, then others."""
    eng.assumptions.add('an element carries at most one attribute of each local name')
    parts = []
    for L in sorted(lits):
        nm = '%s[%s]' % (seq.name, L)
        e = eng.mk(seq.elemty, nm)
        key = ('attrax', nm)
        if key not in eng.symcache:
            eng.symcache[key] = True
            eng.th.ax(attr_local(eng, e) == eng.th.lit(L))
        parts.append(('o', z3.Bool('present[%s]' % nm), e))
    nm = '%s[!%s]' % (seq.name, ','.join(sorted(lits)))
    oth = eng.mk(seq.elemty, nm)
    key = ('attrax', nm)
    if key not in eng.symcache:
        eng.symcache[key] = True
        for L in lits:
            eng.th.ax(attr_local(eng, oth) != eng.th.lit(L))
    return parts, ('s', Seq(nm, seq.elemty, oth, 'others'))


def attr_local(eng, a):
    """local name of an OwnedAttribute value"""
    t = eng.p.T[a.ty]
    ni = [i for i, f in enumerate(t['variants'][0]['fields']) if f['name'] == 'name'][0]
    n = eng.fld(a, 0, ni)
    nt = eng.p.T[n.ty]
    li = [i for i, f in enumerate(nt['variants'][0]['fields']) if f['name'] == 'local_name'][0]
    return eng.fld(n, 0, li)


def attr_value(eng, a):
    t = eng.p.T[a.ty]
    vi = [i for i, f in enumerate(t['variants'][0]['fields']) if f['name'] == 'value'][0]
    return eng.fld(a, 0, vi)


def attr_elem_names(eng, seq):
    return {str(attr_local(eng, seq.elem).decl().name())}


def materialise(eng, st, it, probe):
    """Replace a leading symbolic attribute list by its literal-named members; probe(state, elem)
    runs the loop body or predicate once and returns the path conditions it produced."""
    seq = it.a['parts'][0][1]
    lits = set()
    for pc in probe(seq.elem):
        lits |= lits_of(eng, pc, attr_elem_names(eng, seq))
    parts, rest = attr_parts(eng, seq, lits)
    orders = [parts]
    if len(parts) > 1:
        orders.append(list(reversed(parts)))
    tail = tuple(it.a['parts'][1:])
    return [it.with_(parts=tuple(o) + (rest,) + tail) for o in orders]


def set_iter(eng, st, p, it):
    eng.save(st, p.cell, p.path, it)


def next_(eng, st, c):
    p = c.args[0]
    while isinstance(p, RefV):
        p = p.v
    if not isinstance(p, Ptr):
        raise Unsupported('next on %r' % (p,))
    it = eng.load(st, p.cell, p.path)
    while isinstance(it, Ptr):
        p = it
        it = eng.load(st, p.cell, p.path)
    if not isinstance(it, Obj) or it.kind != 'It':
        raise Unsupported('next on %r' % (it,))
    return next_it(eng, st, c, p, it)


def next_it(eng, st, c, p, it):
    parts = it.a['parts']
    if not parts:
        return [(st, C.none(eng, c.rty))]
    h = parts[0]
    if h[0] == 'e':
        outs = []
        for s, v in C.apply_ops(eng, st, it.a['ops'], C.elem_of(it, h[1])):
            it2 = it.with_(parts=parts[1:])
            set_iter(eng, s, p, it2)
            if v is None:
                outs.extend(next_it(eng, s, c, p, it2))
            else:
                outs.append((s, C.some(eng, c.rty, v)))
        return outs
    if h[0] == 'o':
        outs = []
        for s, b in eng.branch(st, h[1]):
            it2 = it.with_(parts=((('e', h[2]),) if b else ()) + parts[1:])
            set_iter(eng, s, p, it2)
            outs.extend(next_it(eng, s, c, p, it2))
        return outs
    if h[0] == 'L':
        raise Suspend('back', h[1])
    if h[0] == 's' and it.a.get('stop'):
        return [(st, C.none(eng, c.rty))]
    if h[0] in ('s', 'F', 'r'):
        return foreach(eng, st, c, p, it)
    raise Unsupported('iteration part %r' % (h[0],))


def is_attr_seq(eng, seq):
    if seq.kind in ('split', 'others', 'free') or seq.elemty is None:
        return False
    t = eng.p.T[seq.elemty]
    return t['k'] == 'adt' and t['name'].endswith('OwnedAttribute')


def foreach(eng, st, c, p, it):
    h = it.a['parts'][0]
    if h[0] == 'F':
        # a sequence already mapped: iterate over its alternatives
        if len(h[2]) == 1 and not h[2][0][0] and len(h[2][0][1]) == 1 and h[2][0][1][0][0] == 'e':
            seq = h[1]
            elems = [((), h[2][0][1][0][1])]
        else:
            raise Unsupported('loop over a filtered sequence')
    elif h[0] == 'r':
        raise Unsupported('loop over a reversed sequence')
    else:
        seq = h[1]
        elems = [((), seq.elem)]
    if is_attr_seq(eng, seq) and h[0] == 's':
        def probe(elem):
            pcs = []
            for o in generic(eng, st, c, p, it, elems, {}, None)[0]:
                pcs.append(o.st.pc[len(st.pc):])
            return pcs
        outs = []
        its = materialise(eng, st, it, probe)
        for i, it2 in enumerate(its):
            s = st if i == len(its) - 1 else st.fork()
            set_iter(eng, s, p, it2)
            outs.extend(next_it(eng, s, c, p, it2))
        return outs
    # fixpoint on the set of changed cells
    changed = {}
    live = eng.livecells(st)
    for _ in range(6):
        outs, s0 = generic(eng, st, c, p, it, elems, changed, None)
        backs = [o for o in outs if o.kind == 'back']
        new = False
        for o in backs:
            for cell, v0 in s0.store.items():
                if cell not in live or cell == p.cell:
                    continue
                v1 = o.st.store.get(cell)
                if v1 is v0:
                    continue
                for path, kind in diff(eng, v0, v1, ()):
                    key = (cell, path)
                    if changed.get(key) == kind:
                        continue
                    if changed.get(key) == 'havoc':
                        continue
                    # a change inside an already havocked cell is covered
                    if any(k[0] == cell and path[:len(k[1])] == k[1] and changed[k] == 'havoc' for k in changed):
                        continue
                    changed[key] = kind
                    new = True
        if not new:
            break
    else:
        raise Unsupported('no loop invariant found')
    backs = [o for o in outs if o.kind == 'back']
    base = len(s0.pc)
    havoc_names = s0.ghost.get('$havoc', ())
    summary = {}
    for (cell, path), kind in changed.items():
        if kind != 'append':
            continue
        alts = []
        for o in backs:
            v0 = partsof(eng.load(s0, cell, path))
            v1 = partsof(eng.load(o.st, cell, path))
            alts.append((tuple(o.st.pc[base:]), tuple(v1[len(v0):])))
        for g, ps in alts:
            txt = ' '.join(eng.canon(x) for x in g) + ' '.join(eng.canon_part(x) for x in ps)
            if any(n in txt for n in havoc_names):
                raise Unsupported('loop output depends on earlier iterations')
        summary[(cell, path)] = tuple(merge_alts(eng, alts))
    # phase 2: exits of a generic iteration, reached after a prefix of the sequence
    outs2, s0 = generic(eng, st, c, p, it, elems, changed, summary)
    for o in outs2:
        if o.kind != 'back':
            if o.kind == 'demand' and any(fr.fid == c.fr.fid for fr in o.st.frames) and in_loop(eng, o.st, p):
                raise Unsupported('event stream read inside a sequence loop')
            eng.extra.append(o)
    # after the loop
    s = st
    for (cell, path), kind in changed.items():
        if kind == 'append':
            v = eng.load(s, cell, path)
            parts = partsof(v) + (('F', seq, summary[(cell, path)]),)
            eng.save(s, cell, path, withparts(v, parts))
        else:
            # unchanged when the sequence is empty, otherwise whatever the iterations left
            v, names = havoc(eng, eng.load(s, cell, path))
            eng.save(s, cell, path, v)
    it2 = it.with_(parts=it.a['parts'][1:])
    set_iter(eng, s, p, it2)
    return next_it(eng, s, c, p, it2)


def in_loop(eng, st, p):
    v = st.store.get(p.cell)
    try:
        v = eng.load(st, p.cell, p.path)
    except Unsupported:
        return False
    return isinstance(v, Obj) and v.kind == 'It' and v.a['parts'] and v.a['parts'][0][0] == 'L'


def merge_alts(eng, alts):
    return alts


def partsof(v):
    if isinstance(v, Vec):
        return v.parts
    if isinstance(v, Obj) and v.kind == 'EW':
        return v.a['log'].parts
    raise Unsupported('not a log')


def withparts(v, parts):
    if isinstance(v, Vec):
        return Vec(parts)
    return v.with_(log=Vec(parts))


def generic(eng, st, c, p, it, elems, changed, summary):
    s = st.fork()
    names = []
    lid = eng.fresh('loop')
    for (cell, path), kind in changed.items():
        v = eng.load(s, cell, path)
        if kind == 'append':
            mark = ('P', (summary or {}).get((cell, path)), it.a['parts'][0][1]) if summary is not None else ('P', lid, None)
            eng.save(s, cell, path, withparts(v, partsof(v) + (mark,)))
        else:
            w, ns = havoc(eng, v)
            names += ns
            eng.save(s, cell, path, w)
    s.ghost['$havoc'] = tuple(s.ghost.get('$havoc', ())) + tuple(names)
    s0 = s.fork()
    set_iter(eng, s, p, it.with_(parts=(('L', lid),)))
    depth = eng.base_depth
    outs = []
    for g, e in elems:
        for s2, v in C.apply_ops(eng, s.fork(), it.a['ops'], C.elem_of(it, e)):
            if v is None:
                outs.append(Outcome('back', s2, lid))
                continue
            fr = s2.frames[-1]
            eng.write(s2, fr, c.t['dest'], C.some(eng, c.rty, v))
            eng.jump(s2, fr, c.t['t'])
            outs.extend(eng.run_all(s2, depth))
    for o in outs:
        if o.kind == 'back' and o.value != lid:
            raise Unsupported('iteration escapes to an outer loop')
    return outs, s0


def havoc(eng, v):
    n = eng.fresh('hv')
    if isinstance(v, bool) or (is_z3(v) and z3.is_bool(v)):
        return z3.Bool(n), [n]
    if isinstance(v, int) or (is_z3(v) and z3.is_int(v)):
        return z3.Int(n), [n]
    if is_z3(v):
        return z3.Const(n, v.sort()), [n]
    if isinstance(v, (Adt, Sym)):
        t = eng.p.T[v.ty]
        if t['enum'] or isinstance(v, Sym):
            return eng.mk(v.ty, n), [n]
        fs, ns = [], []
        for f in v.fields:
            w, x = havoc(eng, f)
            fs.append(w)
            ns += x
        return Adt(v.ty, v.var, fs), ns
    if isinstance(v, Tup):
        fs, ns = [], []
        for f in v.fields:
            w, x = havoc(eng, f)
            fs.append(w)
            ns += x
        return Tup(fs), ns
    if isinstance(v, RefV):
        w, x = havoc(eng, v.v)
        return RefV(w), x
    raise Unsupported('loop-carried value %r' % (v,))


def diff(eng, a, b, path):
    """Changed leaves between two values: (path, 'append' | 'havoc')."""
    if a is b:
        return []
    if isinstance(a, Sym) and isinstance(b, Adt) and not eng.p.T[a.ty]['enum']:
        a = eng.expand(a, 0)
    if isinstance(a, Adt) and isinstance(b, Adt) and a.var == b.var and a.ty == b.ty:
        out = []
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            out += diff(eng, x, y, path + (('f', a.var if eng.p.T[a.ty]['enum'] else None, i),))
        return out
    if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fields) == len(b.fields):
        out = []
        for i, (x, y) in enumerate(zip(a.fields, b.fields)):
            out += diff(eng, x, y, path + (('f', None, i),))
        return out
    if eng.canon(a) == eng.canon(b):
        return []
    if isinstance(a, Vec) and isinstance(b, Vec):
        n = len(a.parts)
        if len(b.parts) >= n and all(eng.canon_part(x) == eng.canon_part(y) for x, y in zip(a.parts, b.parts)):
            return [(path, 'append')]
        raise Unsupported('loop changes a vector other than by appending')
    if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == 'EW' and b.kind == 'EW':
        return [(path, x[1]) for x in diff(eng, a.a['log'], b.a['log'], path)]
    return [(path, 'havoc')]


# -- find / any / all ---------------------------------------------------------------------------------------
def search(eng, st, c):
    n = short(c.f['decl'])
    src = c.args[0]
    it = C.deref(eng, st, src)
    if not isinstance(it, Obj) or it.kind != 'It':
        it = C.to_iter(eng, st, src)
    f = c.args[1]
    return search_it(eng, st, c, n, it, f)


def pred(eng, st, n, f, x):
    if n == 'find':
        return eng.call_sync(st, f, [RefV(x)])
    return eng.call_sync(st, f, [x])


def search_it(eng, st, c, n, it, f):
    parts = it.a['parts']
    if not parts:
        return [(st, {'find': lambda: C.none(eng, c.rty), 'find_map': lambda: C.none(eng, c.rty), 'any': lambda: False, 'all': lambda: True}[n]())]
    if n == 'position':
        raise Unsupported('position')
    h = parts[0]
    if h[0] == 'r' and h[1] in ('e', 'o') or h[0] == 'r' and h[1] == 's' and h[2].kind == 'free':
        h = h[1:]
    rest = it.with_(parts=parts[1:])
    if h[0] == 's' and h[1].kind == 'free':
        # any elements at all: either its generic element is the first one found, or nothing in it is
        one = search_it(eng, st.fork(), c, n, it.with_(parts=(('e', h[1].elem),)), f)
        base = {'find': None, 'find_map': None, 'any': False, 'all': True}[n]
        for s, v in one:
            C.nosideeffect(eng, st, s)
        hits = [(s, v) for s, v in one if (isinstance(v, Adt) and v.fields if base is None else v is not base)]
        return hits + search_it(eng, st, c, n, rest, f)
    if h[0] == 'o':
        outs = []
        for s, b in eng.branch(st, h[1]):
            outs.extend(search_it(eng, s, c, n, it.with_(parts=((('e', h[2]),) if b else ()) + parts[1:]), f))
        return outs
    if h[0] == 'e':
        outs = []
        for s, x in C.apply_ops(eng, st, it.a['ops'], C.elem_of(it, h[1])):
            if x is None:
                outs.extend(search_it(eng, s, c, n, rest, f))
                continue
            for s2, v in pred(eng, s, n, f, x):
                if n == 'find_map':
                    for s3, i in eng.cases(s2, v, None):
                        a = v if isinstance(v, Adt) else eng.expand(v, i)
                        if a.fields:
                            outs.append((s3, a))
                        else:
                            outs.extend(search_it(eng, s3, c, n, rest, f))
                    continue
                for s3, b in eng.branch(s2, v):
                    if n == 'find' and b:
                        outs.append((s3, C.some(eng, c.rty, x)))
                    elif n == 'any' and b:
                        outs.append((s3, True))
                    elif n == 'all' and not b:
                        outs.append((s3, False))
                    else:
                        outs.extend(search_it(eng, s3, c, n, rest, f))
        return outs
    if h[0] == 's':
        seq = h[1]
        if is_attr_seq(eng, seq):
            def probe(elem):
                pcs = []
                for s, x in C.apply_ops(eng, st.fork(), it.a['ops'], C.elem_of(it, elem)):
                    if x is None:
                        pcs.append(s.pc[len(st.pc):])
                        continue
                    for s2, v in pred(eng, s, n, f, x):
                        if n == 'find_map':
                            pcs.append(s2.pc[len(st.pc):])
                            continue
                        pcs.append(s2.pc[len(st.pc):] + ([v] if is_z3(v) else []))
                return pcs
            outs = []
            its = materialise(eng, st, it, probe)
            for i, it2 in enumerate(its):
                outs.extend(search_it(eng, st if i == len(its) - 1 else st.fork(), c, n, it2, f))
            return outs
        if seq.kind == 'others':
            hit = False
            for s, x in C.apply_ops(eng, st.fork(), it.a['ops'], C.elem_of(it, seq.elem)):
                if x is None:
                    continue
                for s2, v in pred(eng, s, n, f, x):
                    if n == 'find_map':
                        for s3, i in eng.cases(s2, v, None):
                            if eng.p.T[v.ty]['variants'][i]['fields']:
                                hit = True
                        continue
                    for s3, b in eng.branch(s2, v):
                        if b == (n != 'all'):
                            hit = True
            if not hit:
                return search_it(eng, st, c, n, rest, f)
    raise Unsupported('%s over a symbolic sequence' % n)
