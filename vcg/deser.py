"""Contracts of the generated deserialize functions, checked against their MIR.

The event stream is a ghost sequence of items (own text, child elements, the own end tag, a reader
error). The real loop is cut wherever it asks for the next item; the cut's invariant, over all live
variables and the ghost specification state together, is inferred by anti-unification to a fixpoint,
and the postcondition is checked on every path that leaves the loop."""
import re
import z3
from values import *
from engine import Engine, State, Suspend, Outcome, int_range
import contracts as C
import foreach as FE
from corpus import BY, SCALARS
from rustgen import san
from verify_ser import root_key, selfty, tyname, is_trait, scalar_impl, push_body, props_of, pathtxt, Cmp, h_dflt, h_pred

MAXCFG = 400


class Elem:
    """An element of the document: start and end events, and its text if it has nothing else."""

    def __init__(self, run, name, label=None):
        eng = run.eng
        self.id = name
        self.name = Sym(run.ty['OwnedName'], name + '.name')
        self.attrs = Vec((('s', eng.seq(name + '.attrs', run.ty['OwnedAttribute'])),))
        self.ns = Obj('NS', parts=(('x', name + '.ns'),))
        self.start = run.event('StartElement', [self.name, self.attrs, self.ns])
        self.end = run.event('EndElement', [self.name])
        self.text = z3.Const(name + '.text', Str)
        self.chars = run.event('Characters', [self.text])
        nsv = eng.symfield(self.name, 0, 1)
        if ('nsax', name) not in eng.symcache:
            eng.symcache[('nsax', name)] = True
            eng.th.ax(eng.symfield(nsv, 1, 0) != eng.th.lit(''))
            eng.th.ax(self.text != eng.th.lit(''))

    def local(self, eng):
        return eng.symfield(self.name, 0, 0)

    def has_ns(self, eng, uri):
        n = eng.symfield(self.name, 0, 1)
        d = eng.disc_of(n)
        if not uri:
            return d == 0
        return z3.And(d == 1, eng.symfield(n, 1, 0) == eng.th.lit(uri))

    def in_ns(self, eng):
        return eng.disc_of(eng.symfield(self.name, 0, 1)) == 1


class Ob:
    """Collects obligations of one run with their properties."""


# -- hooks --------------------------------------------------------------------------------------------------
def reader_ptr(eng, st, v):
    while isinstance(v, RefV):
        v = v.v
    while isinstance(v, Ptr):
        t = eng.load(st, v.cell, v.path)
        if isinstance(t, Ptr):
            v = t
            continue
        return v
    raise Unsupported('reader argument')


def reader_fields(eng, r):
    names = [f['name'] for f in eng.p.T[r.ty]['variants'][0]['fields']]
    try:
        return [names.index(n) for n in ('depth', 'reader', 'peeked')]
    except ValueError:
        raise Unsupported('unexpected fields of Deserializer: %s' % names)


def current(eng, st, r, ix):
    """(event, source) next to be delivered; source 'peeked' | 'pend' | None"""
    pk = r.fields[ix[2]]
    if not isinstance(pk, Adt):
        raise Unsupported('symbolic peeked event')
    if pk.fields:
        return pk.fields[0], 'peeked'
    pend = st.ghost['pend']
    if pend and pend[0][0] == 'ev':
        return pend[0][1], 'pend'
    return None, pend[0][0] if pend else None


def plus(a, n):
    return a + n if isinstance(a, int) else z3.simplify(a + n)


def set_reader(eng, st, p, r, ix, **kw):
    fs = list(r.fields)
    for k, v in kw.items():
        fs[ix[{'depth': 0, 'reader': 1, 'peeked': 2}[k]]] = v
    eng.save(st, p.cell, p.path, Adt(r.ty, r.var, fs))


class Run:
    """One deserialize function, one entry mode."""

    def __init__(self, prog, th, t, rep, mode):
        self.prog = prog
        self.t = t
        self.rep = rep
        self.mode = mode
        self.eng = Engine(prog, th)
        eng = self.eng
        eng.stream = self
        self.ty = {}
        for i, x in prog.T.items():
            if not x or x['k'] != 'adt':
                continue
            if x['name'] == 'xml::reader::XmlEvent':
                self.ty['XmlEvent'] = i
            elif x['name'] == 'xml::name::OwnedName':
                self.ty['OwnedName'] = i
            elif x['name'] == 'xml::attribute::OwnedAttribute':
                self.ty['OwnedAttribute'] = i
            elif x['s'] == 'std::option::Option<xml::reader::XmlEvent>':
                self.ty['OptEvent'] = i
            elif x['name'] == 'xml::common::XmlVersion':
                self.ty['XmlVersion'] = i
        self.evs = {v['name'].split('::')[-1]: i for i, v in enumerate(prog.T[self.ty['XmlEvent']]['variants'])}
        eng.hooks += [
            (lambda f: is_trait(f, 'YaDeserialize::deserialize'), self.h_deserialize),
            (lambda f: f['decl'] == 'yaserde::de::from_str', self.h_from_str),
            (lambda f: (f['decl'] or '').startswith('yaserde::de::Deserializer') and f['decl'].endswith('::skip_element'), self.h_skip),
            (lambda f: re.search(r'(^|::)types::dflt_\w+$', f['decl']) is not None, h_dflt),
            (lambda f: f['decl'] == 'std::default::Default::default' and self.corpus_ty(f) is not None, self.h_default),
        ]
        self.n = 0
        self.classes = {}
        self.boundof = {}
        self.lb = {}
        self.keys = {}
        self.E0 = Elem(self, 'E0')
        self.floor = set()      # lower bounds worth trying for generalised integers
        self.subject = 'deserialize of %s (%s)' % (t.name, mode)
        self.unsup = []

    # -- small helpers
    def corpus_ty(self, f):
        try:
            n = tyname(self.eng, selfty(self.eng, f))
        except Exception:
            return None
        return n if n in BY else None

    def h_default(self, eng, st, c):
        return [(st, eng.mk(c.rty, 'default:' + self.corpus_ty(c.f)))]

    def event(self, name, fields):
        return Adt(self.ty['XmlEvent'], self.evs[name], fields)

    def evname(self, ev):
        for k, i in self.evs.items():
            if isinstance(ev, Adt) and ev.var == i:
                return k
        return '?'

    def opt_ev(self, ev=None):
        return Adt(self.ty['OptEvent'], 0 if ev is None else 1, [] if ev is None else [ev])

    def oblig(self, props, name, ok, detail='', st=None):
        status = 'proved' if ok is True else 'refuted' if ok is False else ok
        exact = not (st is not None and st.ghost.get('widened'))
        self.rep.add(props, self.subject, name, status, '' if ok is True else '%s; history %s; when %s' % (
            detail, ' '.join(st.ghost.get('hist', ())) if st else '', pathtxt(st) if st else ''), exact=exact)

    def unsupported(self, why):
        if why not in self.unsup:
            self.unsup.append(why)

    # -- the stream
    def next_raw(self, eng, st, c):
        pend = st.ghost['pend']
        if not pend:
            raise Suspend('demand')
        tok = pend[0]
        if tok[0] == 'ev':
            st.ghost['pend'] = pend[1:]
            return [(st, C.ok(eng, c.rty, tok[1]))]
        if tok[0] == 'err':
            st.ghost['errs'] = st.ghost.get('errs', 0) + 1
            if st.ghost['errs'] > 20:
                raise Suspend('hang', 'keeps asking a reader that has failed')
            st.ghost['must'] = st.ghost['must'] or 'the reader failed'
            return [(st, C.err(eng, c.rty, C.errval(eng, c.rty, 'reader_err')))]
        if tok[0] in ('body', 'tail'):
            E = tok[1]
            rest = pend[1:]
            outs = []
            for kind in self.bodies(st, E) if tok[0] == 'body' else self.tails(st, E):
                s = st.fork()
                s.ghost[('body', E.id)] = kind if kind != 'end' else 'text'
                if kind == 'err':
                    s.ghost['pend'] = (('err',),)
                elif kind in ('empty', 'end'):
                    s.ghost['pend'] = (('ev', E.end),) + rest
                elif kind == 'text':
                    s.ghost['pend'] = (('ev', E.chars), ('tail', E)) + rest
                elif kind == 'mixed':
                    N = Elem(self, E.id + 'n')
                    s.ghost['pend'] = (('ev', N.start), ('rest', N), ('rest', E)) + rest
                    s.ghost['hist'] += ('with an element inside',)
                outs += self.next_raw(eng, s, c)
            return outs
        if tok[0] == 'rest':
            eng.extra.append(Outcome('unsup', st, 'child content read event by event'))
            return []
        raise Unsupported('stream token %r' % (tok,))

    def bodies(self, st, E):
        return ['empty', 'text', 'mixed', 'err']

    def tails(self, st, E):
        return ['end', 'mixed', 'err']

    # -- contracts
    def h_deserialize(self, eng, st, c):
        """Contract of YaDeserialize::deserialize: reads the element that starts next up to, not
        including, its end tag; gives the value of that element, or an error."""
        if len(st.frames) == 1:
            return push_body(eng, st, c)
        p = reader_ptr(eng, st, c.args[0])
        r = eng.load(st, p.cell, p.path)
        ix = reader_fields(eng, r)
        ev, src = current(eng, st, r, ix)
        if ev is None or self.evname(ev) != 'StartElement':
            return self.confused(st, 'deserialize called while %s is next' % (self.evname(ev) if ev is not None else src))
        pend = st.ghost['pend']
        if src == 'pend':
            pend = pend[1:]
        if not pend or pend[0][0] != 'body':
            return self.confused(st, 'a field is read from the own start tag')
        E = pend[0][1]
        T = tyname(eng, selfty(eng, c.f))
        bad = st.fork()
        bad.ghost[('de', E.id)] = ('err', T)
        bad.ghost['must'] = bad.ghost['must'] or 'a nested element could not be read'
        bad.ghost['pend'] = (('err',),)
        s = st
        s.ghost[('de', E.id)] = ('ok', T)
        s.ghost['pend'] = (('ev', E.end),) + pend[1:]
        set_reader(eng, s, p, r, ix, depth=plus(r.fields[ix[0]], 1), peeked=self.opt_ev())
        v = self.de_value(E, T, eng.p.T[c.rty]['args'][0])
        return [(bad, C.err(eng, c.rty, C.errval(eng, c.rty, 'child_err'))), (s, C.ok(eng, c.rty, v))]

    def de_value(self, E, T, tyid):
        return self.eng.mk(tyid, 'de[%s|%s]' % (T, E.id))

    def confused(self, st, why):
        """The generated code does something the property forbids for any input that gets here."""
        self.oblig({'C17', 'C03', 'C08'}, 'stays inside its own element', False, why, st)
        return []

    def h_from_str(self, eng, st, c):
        """Contract of yaserde::de::from_str: a function of the text alone."""
        s = eng.strval(C.deref(eng, st, c.args[0]))
        T = eng.p.T[eng.p.T[c.rty]['args'][0]]
        key = self.destr_key(tyname(eng, T), s)
        bad = st.fork()
        ok = z3.Bool('destr_ok[%s]' % key)
        eng.th.keep.append(ok)
        outs = []
        for s2, b in eng.branch(st, ok):
            if b:
                outs.append((s2, C.ok(eng, c.rty, eng.mk(eng.p.T[c.rty]['args'][0], 'destr[%s]' % key))))
            else:
                outs.append((s2, C.err(eng, c.rty, C.errval(eng, c.rty, 'destr_err[%s]' % key))))
        return outs

    def destr_key(self, T, s):
        log = getattr(self.eng, 'texts', {}).get(s.get_id())
        return '%s|%s' % (T, self.eng.canon(log) if log is not None else self.eng.canon(s))

    def h_skip(self, eng, st, c):
        """Contract of Deserializer::skip_element: hands every event up to and including the end of
        the innermost open element to the callback, in order."""
        p = reader_ptr(eng, st, c.args[0])
        r = eng.load(st, p.cell, p.path)
        ix = reader_fields(eng, r)
        ev, src = current(eng, st, r, ix)
        outs = []
        toks = list(st.ghost['pend'])
        if src == 'peeked':
            toks.insert(0, ('ev', ev))
        what = []
        depth = 0
        fork = [st]
        fails = False
        while depth >= 0:
            if not toks:
                return self.confused(st, 'skip_element called with no open child element')
            tok = toks.pop(0)
            if tok[0] == 'err':
                st.ghost['must'] = st.ghost['must'] or 'the reader failed'
                set_reader(eng, st, p, r, ix, peeked=self.opt_ev())
                return [(st, C.err(eng, c.rty, C.errval(eng, c.rty, 'reader_err')))]
            if tok[0] == 'ev':
                if tok[1] is self.E0.end:
                    return self.confused(st, 'skip_element skips the rest of the own element')
                what.append(tok)
                depth += {'StartElement': 1, 'EndElement': -1}.get(self.evname(tok[1]), 0)
                continue
            E = tok[1]
            fails = True
            what.append(('seq', self.events_of(E)))
            depth -= 1
            if tok[0] == 'body':
                st.ghost[('body', E.id)] = 'skipped'
            elif tok[0] == 'tail':
                s2 = st.fork()
                s2.ghost[('body', E.id)] = 'mixed'
                fork.append(s2)
        if fails:
            bad = st.fork()
            bad.ghost['must'] = bad.ghost['must'] or 'the reader failed'
            bad.ghost['pend'] = (('err',),)
            set_reader(eng, bad, p, r, ix, peeked=self.opt_ev())
            outs.append((bad, C.err(eng, c.rty, C.errval(eng, c.rty, 'reader_err'))))
        for s in fork:
            s.ghost['pend'] = tuple(toks)
            set_reader(eng, s, p, r, ix, depth=plus(r.fields[ix[0]], -1), peeked=self.opt_ev())
            for s2 in self.callback(eng, s, c, what):
                outs.append((s2, C.ok(eng, c.rty)))
        return outs

    def events_of(self, E):
        nm = 'events[%s]' % E.id
        return Seq(nm, self.ty['XmlEvent'], Sym(self.ty['XmlEvent'], nm + '.$'))

    def callback(self, eng, st, c, what):
        cb = c.args[1]
        sts = [st]
        for kind, x in what:
            nxt = []
            for s in sts:
                if kind == 'ev':
                    nxt += [s2 for s2, v in eng.call_sync(s, cb, [RefV(x)])]
                    continue
                # one generic event of the element
                g = x.elem
                s0 = s.fork()
                d = eng.disc_of(g)
                gen = s.fork()
                if not eng.assume(gen, z3.Or(*[d == self.evs[n] for n in ('StartElement', 'EndElement', 'Characters')])):
                    raise Unsupported('generic event')
                base = len(gen.pc)
                res = eng.call_sync(gen.fork(), cb, [RefV(g)])
                changed = {}
                for s2, v in res:
                    for cell, v0 in s0.store.items():
                        v1 = s2.store.get(cell)
                        if v1 is v0:
                            continue
                        for path, how in FE.diff(eng, v0, v1, ()):
                            if how != 'append':
                                raise Unsupported('skip callback changes state other than by appending')
                            changed.setdefault((cell, path), None)
                for (cell, path) in changed:
                    alts = []
                    v0 = FE.partsof(eng.load(s0, cell, path))
                    for s2, v in res:
                        v1 = FE.partsof(eng.load(s2, cell, path))
                        alts.append((tuple(s2.pc[base:]), tuple(v1[len(v0):])))
                    alts = [(gs, tuple(self.whole(g, q) for q in ps)) for gs, ps in alts]
                    if len({tuple(eng.canon_part(q) for q in ps) for _, ps in alts}) == 1:
                        alts = [((), alts[0][1])]
                    eng.save(s, cell, path, FE.withparts(eng.load(s, cell, path), v0 + (('F', x, tuple(alts)),)))
                nxt.append(s)
            sts = nxt
        return sts

    def whole(self, g, q):
        """a copy of the generic event, seen through one of its variants, is a copy of the event"""
        if q[0] == 'e' and isinstance(q[1], Obj) and q[1].kind == 'Copy':
            a = q[1].a['ev']
            if isinstance(a, Adt) and self.eng.canon(a) == self.eng.canon(self.eng.expand(g, a.var)):
                return ('e', Obj('Copy', ev=g))
        return q

    # -- start
    def start(self):
        eng = self.eng
        key = root_key(self.prog, getattr(self, 'root', None) or 'root_de_' + self.t.name)
        L = self.prog.fn(key)['locals']
        rty = self.prog.T[L[1]]['ty']
        self.rty = rty
        st = State()
        st.ghost.update(pend=(), must=None, closed=False, started=self.mode == 'nested', item=None, hist=())
        names = [f['name'] for f in self.prog.T[rty]['variants'][0]['fields']]
        vals = []
        self.d0 = z3.Int('d0') if self.mode == 'nested' else 0
        if self.mode == 'nested':
            st.pc.append(z3.And(self.d0 >= 1, self.d0 < (1 << 40)))
            eng.assumptions.add('fewer than 2^31 elements and nesting levels in one document')
        for n, f in zip(names, self.prog.T[rty]['variants'][0]['fields']):
            if n == 'depth':
                vals.append(self.d0)
            elif n == 'peeked':
                vals.append(self.opt_ev(self.E0.start if self.mode == 'nested' else None))
            elif n == 'reader':
                vals.append(Obj('ER', inner=None, cfg=None))
            else:
                vals.append(eng.mk(f['ty'], 'reader_' + n))
        st.store[('root', 'r')] = Adt(rty, 0, vals)
        okty = self.prog.T[self.prog.fn(key)['locals'][0]]['args'][0]
        self.okty = okty
        self.init_ghost(st)
        if self.mode == 'nested':
            for s in self.own_start(st):
                s2 = s.fork()
                eng.push(s2, key, [Ptr(('root', 'r'))], None, None)
                yield s2
        else:
            eng.push(st, key, [Ptr(('root', 'r'))], None, None)
            yield st

    # -- cut points
    def loc(self, st):
        g = st.ghost
        return tuple((fr.fn, fr.bb) for fr in st.frames) + (g['started'], g['closed'], bool(g['must']), g.get('phase'))

    def verify(self):
        eng = self.eng
        self.cfg = {}
        self.work = []
        self.nret = 0
        self.nok = 0
        for st in self.start():
            self.run(st)
        n = 0
        while self.work:
            n += 1
            if n > MAXCFG:
                raise Unsupported('no fixpoint after %d cut states' % MAXCFG)
            loc, st = self.work.pop(0)
            cur = self.cfg.get(loc)
            if cur is not st and cur is not None:
                continue      # superseded by a wider state
            for s in self.items(st):
                self.run(s)
        self.ncuts = len(self.cfg)
        return self

    def run(self, st):
        eng = self.eng
        st.steps = 0
        for o in eng.run_all(st):
            if o.kind == 'ret':
                self.nret += 1
                for s in self.finalize(o.st):
                    self.check_ret(s, o.value)
            elif o.kind == 'panic':
                self.oblig({'C10'} | self.allprops(), 'does not panic', False, o.value, o.st)
            elif o.kind == 'hang':
                self.oblig({'C10'}, 'makes progress', False, str(o.value), o.st)
            elif o.kind == 'unsup':
                self.unsupported(o.value)
            elif o.kind == 'demand':
                for s in self.finalize(o.st):
                    self.resync(s)
                    self.arrive(s)
            else:
                raise Unsupported('outcome %s' % o.kind)

    def resync(self, st):
        """Write a ghost value the way the code writes it, where the two are provably equal: the
        cut's invariant is about equal values, and they should look equal."""
        eng = self.eng
        accs = [k for k in st.ghost if isinstance(k, tuple) and k[0] in ('acc', 'log')]
        live = None
        for k in accs:
            g = st.ghost[k]
            if not isinstance(g, (Adt, Sym, Vec)):
                continue
            if live is None:
                live = [(c, st.store[c], eng.canon(st.store[c])) for c in sorted(eng.livecells(st), key=str) if c in st.store
                        and isinstance(st.store[c], (Adt, Sym, Vec))]
            cg = eng.canon(g)
            if any(x == cg for _, _, x in live):
                continue
            for c, v, _ in live:
                if isinstance(g, Vec) != isinstance(v, Vec) or not isinstance(g, Vec) and g.ty != v.ty:
                    continue
                if isinstance(g, Vec) and len(g.parts) != len(v.parts):
                    continue
                try:
                    if Cmp(eng).parts(st.pc, v.parts, g.parts) if isinstance(g, Vec) else Cmp(eng).val(st.pc, v, g):
                        st.ghost[k] = v
                        break
                except Unsupported:
                    continue

    def allprops(self):
        p = props_of(self.t)
        for f in self.t.fields or []:
            p |= props_of(self.t, f)
        return p | ({'C08'} if self.t.kind == 'enum' else {'C03'})

    def arrive(self, st):
        if st.ghost['closed']:
            self.after_close(st)
            return
        if not st.ghost.get('widened') and st.ghost['started'] and len(st.ghost['hist']) <= 3:
            # the exact state: look at its continuation by the own end tag before generalising
            for s in self.items(st, only_end=True):
                self.run(s)
        loc = self.loc(st)
        cur = self.cfg.get(loc)
        if cur is None:
            self.cfg[loc] = st
            self.work.append((loc, st))
            return
        new = generalise(self, cur, st)
        if new is not None:
            self.cfg[loc] = new
            self.work.append((loc, new))

    def after_close(self, st):
        if self.mode == 'nested':
            self.oblig({'C17'}, 'never reads past the own end tag', False, 'an event after the own end tag is requested', st)
            return
        # at the document root: only the end of the document can follow
        s = st.fork()
        s.ghost['pend'] = (('ev', self.event('EndDocument', [])),)
        s.ghost['past'] = s.ghost.get('past', 0) + 1
        if s.ghost['past'] > 3:
            self.oblig({'C10'}, 'makes progress', False, 'keeps reading after the end of the document', st)
            return
        self.run(s)

    def fresh_elem(self):
        self.n += 1
        return Elem(self, 'E%d' % self.n)

    def base_items(self, st):
        """Items every kind of type has: reader error, own end."""
        out = []
        s = st.fork()
        s.ghost['pend'] = (('err',),)
        s.ghost['item'] = None
        s.ghost['hist'] += ('error',)
        s.ghost['must'] = 'the reader failed'
        out.append(s)
        return out

    def end_item(self, st):
        s = st.fork()
        s.ghost['pend'] = (('ev', self.E0.end),)
        s.ghost['closed'] = True
        s.ghost['item'] = None
        s.ghost['hist'] += ('end',)
        return s

    def child(self, st, conds, item, tag):
        E = item['E']
        s = st.fork()
        for c in conds:
            if not self.eng.assume(s, c):
                return []
        s.ghost['pend'] = (('ev', E.start), ('body', E))
        s.ghost['item'] = item
        s.ghost['hist'] += (tag,)
        return [s]

    def at_end(self, st):
        """reader stands exactly before the own end tag"""
        eng = self.eng
        r = st.store[('root', 'r')]
        ix = reader_fields(eng, r)
        ev, src = current(eng, st, r, ix)
        if ev is None or eng.canon(ev) != eng.canon(self.E0.end):
            return False
        e = eng.eq(r.fields[ix[0]], self.d0 + 1)
        return True if e is True else eng.th.prove(st.pc, e) == 'proved'

    def scalar_ok(self, base, s, mapbool):
        if base == 'bool' and mapbool:
            return OR(*[self.eng.eq(s, x) for x in ('true', 'false', '1', '0')])
        return C.pok(self.eng, 'str' if base == 'String' else base, s)

    def scalar_val(self, base, s, mapbool):
        if base == 'bool' and mapbool:
            return OR(self.eng.eq(s, 'true'), self.eng.eq(s, '1'))
        return C.pval(self.eng, 'str' if base == 'String' else base, s)

    def split(self, st, cond):
        if isinstance(cond, bool):
            return [(st, cond)]
        return self.eng.branch(st.fork(), cond)

    def isok(self, v):
        return self.prog.T[v.ty]['variants'][v.var]['name'].split('::')[-1] == 'Ok'

    def own_start(self, st):
        """The own start tag has been chosen: record what it obliges to. -> states"""
        raise NotImplementedError

    def ns_must(self, st, always):
        """Fork on the namespace of the own element; a wrong one must be rejected."""
        eng = self.eng
        out = []
        if not always:
            return [st]
        good = z3.Not(self.E0.in_ns(eng))
        if self.t.own_uri:
            good = z3.Or(good, self.E0.has_ns(eng, self.t.own_uri))
        for s, b in self.split(st, good):
            if not b:
                s.ghost['must'] = 'the element is in a namespace that is not configured'
                s.ghost['mustprops'] = frozenset({'C07'})
            out.append(s)
        return out

    def justify_missing(self, st):
        return None


# -- generalisation --------------------------------------------------------------------------------------------
GKEEP = ('acc', 'log', 'txt', 'ev')


def skeleton(run, st):
    """live cells renumbered, and the order in which they are met"""
    eng = run.eng
    live = eng.livecells(st)
    idx = {fr.fid: i for i, fr in enumerate(st.frames)}
    order = {}

    def name(cell):
        if cell in order:
            return order[cell]
        if cell[0] == 'root':
            n = ('root', cell[1])
        elif cell[0] in idx:
            n = (idx[cell[0]], cell[1])
        else:
            n = ('x', sum(1 for v in order.values() if v[0] == 'x'), cell[1])
        order[cell] = n
        return n
    fixed = sorted([c for c in live if c[0] == 'root' or c[0] in idx], key=lambda c: (0, '', c[1]) if c[0] == 'root' else (1, '%04d' % idx[c[0]], str(c[1])))
    work = list(fixed)
    seen = set()
    from engine import ptrs
    while work:
        c = work.pop(0)
        if c in seen:
            continue
        seen.add(c)
        name(c)
        ps = []
        if c in st.store:
            ptrs(st.store[c], ps)
        work.extend(p.cell for p in ps)
    return {n: c for c, n in order.items()}, order


class Join:
    def __init__(self, run, A, B):
        self.run = run
        self.eng = run.eng
        self.A, self.B = A, B
        self.cls = {}
        self.changed = False
        self.bounds = []
        self.ca, self.na = skeleton(run, A)
        self.cb, self.nb = skeleton(run, B)

    def canon(self, v, names):
        return renum(self.eng.canon(v), v, names, self.eng)

    def gen(self, a, b, hint=None):
        eng = self.eng
        if a is b:
            return a
        if isinstance(a, Undef) or isinstance(b, Undef):
            return UNDEF
        if isinstance(a, RefV) and isinstance(b, RefV):
            return RefV(self.gen(a.v, b.v, hint))
        if isinstance(a, Ptr) and isinstance(b, Ptr):
            if self.na.get(a.cell) == self.nb.get(b.cell) and a.path == b.path:
                return b
            raise Unsupported('pointers differ at a cut')
        if isinstance(a, Adt) and isinstance(b, Adt) and a.ty == b.ty and a.var == b.var:
            return Adt(b.ty, b.var, [self.gen(x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Tup) and isinstance(b, Tup) and len(a.fields) == len(b.fields):
            return Tup([self.gen(x, y) for x, y in zip(a.fields, b.fields)]) if a.fields else b
        if isinstance(a, Clo) and isinstance(b, Clo) and a.ty == b.ty:
            return Clo(b.ty, [self.gen(x, y) for x, y in zip(a.fields, b.fields)])
        if isinstance(a, Arr) and isinstance(b, Arr) and len(a.items) == len(b.items):
            return Arr([self.gen(x, y) for x, y in zip(a.items, b.items)])
        ka, kb = self.eng.canon(a), self.eng.canon(b)
        if ka == kb:
            return b
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind and set(a.a) == set(b.a) and a.kind in ('EW', 'ER', 'It'):
            o = Obj(b.kind)
            o.a = {k: self.gen(a.a[k], b.a[k]) if not isinstance(a.a[k], (tuple, str, type(None), bool)) else self.same(a.a[k], b.a[k]) for k in a.a}
            return o
        key = (kind(a), ka, kb)
        c = self.cls.get(key)
        if c is None:
            c = self.mkclass(a, b)
            self.cls[key] = c
        return c

    def same(self, a, b):
        if self.eng.canon(a) != self.eng.canon(b):
            raise Unsupported('objects differ at a cut')
        return b

    def mkclass(self, a, b):
        eng = self.eng
        n = eng.fresh('k')
        if isinstance(a, Vec) or isinstance(b, Vec):
            if not (isinstance(a, Vec) and isinstance(b, Vec)):
                raise Unsupported('vector shapes differ at a cut')
            ts = {q[1].elemty for v in (a, b) for q in v.parts if q[0] == 's'}
            if len(ts) == 1 and all(q[0] == 's' for v in (a, b) for q in v.parts) and None not in ts:
                return Vec((('s', eng.seq(n, ts.pop())),))
            return Vec((('s', Seq(n, None, z3.Const(n + '.$', Val))),))
        if isinstance(a, (Adt, Sym)) and isinstance(b, (Adt, Sym)) and a.ty == b.ty:
            return Sym(b.ty, n)
        if isinstance(a, Obj) and isinstance(b, Obj) and a.kind == b.kind == 'NS':
            return Obj('NS', parts=(('x', n),))
        ia = isinstance(a, int) and not isinstance(a, bool) or is_z3(a) and z3.is_int(a)
        ib = isinstance(b, int) and not isinstance(b, bool) or is_z3(b) and z3.is_int(b)
        if ia and ib:
            v = z3.Int(n)
            lo = self.lower(a, b)
            if lo is not None or counter(a) and counter(b):
                self.bounds.append((v, lo))
            return v
        ba = isinstance(a, bool) or is_z3(a) and z3.is_bool(a)
        bb = isinstance(b, bool) or is_z3(b) and z3.is_bool(b)
        if ba and bb:
            return z3.Bool(n)
        if is_z3(a) and is_z3(b) and a.sort() == b.sort():
            return z3.Const(n, b.sort())
        raise Unsupported('values %r and %r differ at a cut' % (a, b))

    def lower(self, a, b):
        eng = self.eng
        cands = sorted({x for x in (a, b) if isinstance(x, int)} | self.run.floor | {self.run.lb.get(str(x), None) for x in (a, b) if is_z3(x)} - {None}, reverse=bool(self.run.floor))
        for m in cands:
            if all((x >= m) if isinstance(x, int) else eng.th.prove(s.pc, x >= m) == 'proved' for x, s in ((a, self.A), (b, self.B))):
                return m
        return None


def counter(x):
    """a constant, or a variable moved by a small constant: it counts events"""
    if isinstance(x, int):
        return abs(x) < (1 << 20)
    x = z3.simplify(x)
    if z3.is_const(x) and x.decl().kind() == z3.Z3_OP_UNINTERPRETED:
        return True
    if z3.is_add(x):
        cs = [c.as_long() for c in x.children() if z3.is_int_value(c)]
        vs = [c for c in x.children() if not z3.is_int_value(c)]
        return len(vs) == 1 and counter(vs[0]) and sum(map(abs, cs)) <= 8
    return z3.is_int_value(x) and abs(x.as_long()) < (1 << 20)


LIM = (1 << 31) - 2


def kind(v):
    if isinstance(v, Vec):
        return 'vec'
    if isinstance(v, (Adt, Sym)):
        return 'adt%d' % v.ty
    if isinstance(v, bool):
        return 'Bool'
    if isinstance(v, int):
        return 'Int'
    if is_z3(v):
        return str(v.sort())
    return type(v).__name__


def renum(s, v, names, eng):
    return s


def generalise(run, A, B):
    """None when B is an instance of A, otherwise a state covering both."""
    eng = run.eng
    if len(A.frames) != len(B.frames):
        raise Unsupported('frames differ at a cut')
    j = Join(run, A, B)
    if set(j.ca) != set(j.cb):
        # cells that only one of them has must be dead garbage
        common = set(j.ca) & set(j.cb)
        if any(n[0] != 'x' for n in set(j.ca) ^ set(j.cb)):
            only = [n for n in set(j.ca) ^ set(j.cb) if n[0] != 'x']
            for n in only:
                (j.ca if n in j.ca else j.cb).pop(n)
        if any(n[0] == 'x' for n in set(j.ca) ^ set(j.cb)):
            raise Unsupported('cells differ at a cut')
    new = {}
    for n in j.cb:
        if n not in j.ca:
            continue
        a, b = A.store.get(j.ca[n], UNDEF), B.store.get(j.cb[n], UNDEF)
        new[j.cb[n]] = j.gen(a, b)
    gnew = {}
    for k in B.ghost:
        if isinstance(k, tuple) and k[0] in GKEEP:
            gnew[k] = j.gen(A.ghost[k], B.ghost[k])
    # is B an instance of A: every leaf of A that is generalised must be a variable of A, consistently
    inst = True
    m = {}
    for (kd, ka, kb), c in j.cls.items():
        nm = run.classes.get(ka)
        if nm is None:
            inst = False
            break
        if m.setdefault(ka, kb) != kb:
            inst = False
            break
    # conditions
    ib = {c.get_id() for c in B.pc}
    keep = [c for c in A.pc if c.get_id() in ib]
    if inst:
        # every class variable of A that B keeps literally maps to itself
        for c in A.pc:
            if c.get_id() in ib:
                continue
            b = run.boundof.get(c.get_id())
            if b is None:
                inst = False
                break
            var, lo = b
            val = [y for (kd, ka, kb), y in j.cls.items() if ka == eng.canon(var)]
            if not val:
                inst = False
                break
            # the value B has for this variable
            if not covered(run, A, B, j, var, lo):
                inst = False
                break
    if inst:
        return None
    st = B.fork()
    st.store = dict(new)
    st.pc = list(keep)
    st.known = {k: v for k, v in B.known.items() if A.known.get(k) is v}
    g = {k: v for k, v in B.ghost.items() if not isinstance(k, tuple)}
    g.update(gnew)
    g['widened'] = True
    g['item'] = None
    g['hist'] = ('...',)
    st.ghost = g
    for key, c in j.cls.items():
        run.classes[eng.canon(c)] = True
    for v, lo in j.bounds:
        e = z3.And(v >= (lo if lo is not None else -LIM), v < LIM)
        eng.th.keep.append(e)
        run.boundof[e.get_id()] = (v, lo)
        if lo is not None:
            run.lb[str(v)] = lo
        st.pc.append(e)
    # what is known must follow from the kept conditions
    ids = {c.get_id() for c in st.pc}
    st.known = {k: v for k, v in st.known.items() if v and k in ids}
    return st


def covered(run, A, B, j, var, lo):
    """The value B gives to A's bounded variable satisfies the bound."""
    eng = run.eng
    want = eng.canon(var)

    def walk(a, b):
        if isinstance(a, RefV) and isinstance(b, RefV):
            return walk(a.v, b.v)
        if isinstance(a, (Adt, Tup, Clo)) and isinstance(b, type(a)) and len(a.fields) == len(b.fields):
            return all(walk(x, y) for x, y in zip(a.fields, b.fields))
        if is_z3(a) and eng.canon(a) == want:
            if lo is None:
                return counter(b)
            if isinstance(b, int):
                return b >= lo
            return eng.th.prove(B.pc, b >= lo) == 'proved'
        return True
    for n in j.cb:
        if n in j.ca and not walk(A.store.get(j.ca[n], UNDEF), B.store.get(j.cb[n], UNDEF)):
            return False
    return True


# -- specifications --------------------------------------------------------------------------------------------
def de_props(t, f=None):
    """properties a deserializer obligation about the field belongs to"""
    p = {'C01'}
    if t.kind == 'enum':
        p |= {'C08'}
    if f is None:
        return p | ({'C03'} if t.kind == 'struct' else set())
    if f.role == 'attr':
        p |= {'C04'}
    elif f.role == 'text':
        p |= {'C14'}
    elif f.role == 'flatten':
        p |= {'C09'}
    elif t.kind == 'struct':
        p |= {'C03'}
        if f.prefix:
            p |= {'C07'}
    p |= {'C05'} if t.kind == 'struct' and f.role != 'flatten' else set()
    if f.base in SCALARS or f.base == 'String':
        p |= {'C13'}
    elif f.base in BY:
        p |= {'C17'} if f.role == 'elem' else set()
        if BY[f.base].prim:
            p |= {'C16'}
        if BY[f.base].kind == 'enum':
            p |= {'C08'}
    return p


class SpecRun(Run):
    def optty(self, tyid):
        k = ('opt', tyid)
        if k not in self.keys:
            c = [i for i, x in self.prog.T.items() if x and x['k'] == 'adt' and x['s'].startswith('std::option::Option<') and x['args'] and x['args'][0] == tyid]
            if not c:
                raise Unsupported('no Option of %s' % self.prog.T[tyid]['s'])
            self.keys[k] = c[0]
        return self.keys[k]

    def some(self, ty, v):
        return Adt(self.optty(ty), 1, [v])

    def none(self, ty):
        return Adt(self.optty(ty), 0, [])

    def attr(self, L):
        """the attribute of that local name on the own start tag: (present, value)"""
        eng = self.eng
        nm = 'E0.attrs[%s]' % L
        e = eng.mk(self.ty['OwnedAttribute'], nm)
        if ('attrax', nm) not in eng.symcache:
            eng.symcache[('attrax', nm)] = True
            eng.th.ax(FE.attr_local(eng, e) == eng.th.lit(L))
        return z3.Bool('present[%s]' % nm), FE.attr_value(eng, e)

    def destr(self, T, s, tyid):
        key = self.destr_key(T, s)
        ok = z3.Bool('destr_ok[%s]' % key)
        self.eng.th.keep.append(ok)
        return ok, self.eng.mk(tyid, 'destr[%s]' % key)

    def conv(self, base, tyid, s, mapbool=True):
        """(readable, value) of one scalar or attribute-like text"""
        if base in SCALARS or base == 'String':
            return self.scalar_ok(base, s, mapbool), self.scalar_val(base, s, mapbool)
        return self.destr(base, self.eng.cat(['<%s>' % base, s, '</%s>' % base]), tyid)

    def must(self, st, why, props):
        if not st.ghost['must']:
            st.ghost['must'] = why
            st.ghost['mustprops'] = frozenset(props)

    def pop_item(self, st):
        it = st.ghost['item']
        st.ghost['item'] = None
        b = d = None
        if it is not None and 'E' in it:
            b = st.ghost.pop(('body', it['E'].id), None)
            d = st.ghost.pop(('de', it['E'].id), None)
        return it, b, d

    def texts(self, st, E, b):
        """-> (state, text) of a leaf element whose body kind may still be open"""
        if b == 'empty':
            return [(st, self.eng.th.lit(''))]
        if b == 'text':
            return [(st, E.text)]
        return [(st.fork(), self.eng.th.lit('')), (st, E.text)]

    def ret_err(self, st, J):
        """An Err result must be called for."""
        if st.ghost['must']:
            self.oblig({'C12'} if 'read' in st.ghost['must'] else st.ghost.get('mustprops', {'C12'}), 'Err when ' + st.ghost['must'], True)
            return
        j = OR(*[c for c, p in J])
        pr = set()
        for c, p in J:
            pr |= set(p)
        r = self.eng.th.prove(st.pc, j) if not isinstance(j, bool) else 'proved' if j else 'refuted'
        self.oblig(pr | self.allprops(), 'Err only when something required is missing or malformed', True if r == 'proved' else False if r == 'refuted' else 'unknown',
                   'returned Err although the document provides everything', st)

    def need(self, st, pr, name, cond, detail=''):
        if isinstance(cond, bool):
            r = cond
        else:
            x = self.eng.th.prove(st.pc, cond)
            r = True if x == 'proved' else False if x == 'refuted' else 'unknown'
        self.oblig(pr, name, r, detail, st)
        return r is True

    def same(self, st, a, b):
        c = Cmp(self.eng)
        if isinstance(a, Vec) and isinstance(b, Vec):
            r = c.parts(st.pc, a.parts, b.parts)
        else:
            r = c.val(st.pc, a, b)
        return r if r or not c.unknown else 'unknown'

    def ret_must(self, st):
        self.oblig(set(st.ghost.get('mustprops') or {'C12'}), 'Err when ' + st.ghost['must'], False, 'returned Ok', st)


class StructRun(SpecRun):
    def fields(self):
        return list(zip(self.t.fields, self.fty))

    def init_ghost(self, st):
        self.fty = [f['ty'] for f in self.prog.T[self.okty]['variants'][0]['fields']]
        for f, ty in self.fields():
            if f.role == 'flatten':
                continue
            if f.wrap == 'vec':
                st.ghost[('acc', f.name)] = Vec(())
            elif f.wrap == 'opt':
                st.ghost[('acc', f.name)] = Adt(ty, 0, [])
            else:
                st.ghost[('acc', f.name)] = self.none(ty)
        st.ghost[('log', '')] = Vec(())
        self.flat = any(f.role == 'flatten' for f in self.t.fields)
        self.hastext = any(f.role == 'text' for f in self.t.fields)

    def elems(self):
        return [(f, ty) for f, ty in self.fields() if f.role in ('elem', 'cdata')]

    def log(self, st, *parts):
        if self.flat:
            st.ghost[('log', '')] = Vec(st.ghost[('log', '')].parts + tuple(parts))

    def copy(self, ev):
        return ('e', Obj('Copy', ev=ev))

    def own_start(self, st):
        st.ghost['item'] = {'kind': 'own'}
        if self.t.flatten:
            for f, _ in self.elems():
                if not self.eng.assume(st, NOT(self.eng.eq(self.E0.local(self.eng), f.label))):
                    return []
        return [st]

    def items(self, st, only_end=False):
        eng = self.eng
        out = []
        g = st.ghost
        if not g['started']:
            if only_end:
                return []
            out += self.base_items(st)
            for s in self.ns_must(st.fork(), True):
                s.ghost['started'] = True
                s.ghost['pend'] = (('ev', self.E0.start),)
                s.ghost['hist'] += ('own start',)
                out += self.own_start(s)
            return out
        s = self.end_item(st)
        self.log(s, self.copy(self.E0.end))
        out.append(s)
        if only_end:
            return out
        out += self.base_items(st)
        if not (self.hastext and g.get('phase') == 'text'):
            s = st.fork()
            x = self.fresh_elem()
            s.ghost['pend'] = (('ev', x.chars),)
            s.ghost['item'] = {'kind': 'text', 'x': x}
            s.ghost['hist'] += ('text',)
            out.append(s)
        els = self.elems()
        for f, ty in els:
            E = self.fresh_elem()
            conds = [E.has_ns(eng, self.t.uri(f)), eng.eq(E.local(eng), f.label)]
            out += self.child(st, conds, {'kind': 'scalar' if f.scalar else 'child', 'f': f, 'ty': ty, 'E': E}, '<%s>' % f.name)
        E = self.fresh_elem()
        conds = [NOT(AND(E.has_ns(eng, self.t.uri(f)), eng.eq(E.local(eng), f.label))) for f, _ in els]
        out += self.child(st, conds, {'kind': 'other', 'E': E}, '<unknown>')
        return out

    def put(self, st, f, ty, v):
        k = ('acc', f.name)
        if f.wrap == 'vec':
            st.ghost[k] = Vec(st.ghost[k].parts + (('e', v),))
        elif f.wrap == 'opt':
            st.ghost[k] = Adt(ty, 1, [v])
        else:
            st.ghost[k] = self.some(ty, v)

    def inner(self, f, ty):
        return ty if f.wrap == 'plain' else self.prog.T[ty]['args'][0]

    def finalize(self, st):
        eng = self.eng
        it, b, d = self.pop_item(st)
        if it is None:
            return [st]
        k = it['kind']
        if k == 'own':
            self.log(st, self.copy(self.E0.start))
            sts = [st]
            for f, ty in self.fields():
                if f.role == 'attr':
                    sts = [y for x in sts for y in self.own_attr(x, f, ty)]
            return sts
        if k == 'text':
            x = it['x']
            self.log(st, self.copy(x.chars))
            for f, ty in self.fields():
                if f.role == 'text':
                    self.put(st, f, ty, x.text)
                    st.ghost['phase'] = 'text'
            return [st]
        if k == 'other':
            if b in ('empty', 'text') and not st.ghost['must']:
                E = it['E']
                self.log(st, *[self.copy(e) for e in ([E.start, E.end] if b == 'empty' else [E.start, E.chars, E.end])])
            elif b == 'mixed' and self.flat:
                raise Unsupported('the content of a child element is read event by event')
            elif not st.ghost['must']:
                seq = self.events_of(it['E'])
                self.log(st, self.copy(it['E'].start), ('F', seq, (((), (self.copy(seq.elem),)),)))
            return [st]
        if st.ghost['must']:
            return [st]
        f, ty, E = it['f'], it['ty'], it['E']
        if k == 'scalar' and b == 'mixed':
            return [st]
        if k == 'child':
            self.put(st, f, ty, self.de_value(E, f.base, self.inner(f, ty)))
            return [st]
        out = []
        for s, x in self.texts(st, E, b):
            ok, v = self.conv(f.base, self.inner(f, ty), x)
            for s2, y in self.split(s, ok):
                if y:
                    self.put(s2, f, ty, v)
                out.append(s2)
        return out

    def own_attr(self, st, f, ty):
        eng = self.eng
        pres, val = self.attr(f.label)
        out = []
        for s, p in self.split(st, pres):
            if not p:
                out.append(s)
                continue
            if f.wrap == 'vec':
                q = C.split_seq(eng, val)
                ok, v = self.conv(f.base, self.inner(f, ty), q.elem)
                bad = ('e', Obj('Unreadable'))
                alts = (((), (('e', v),)),) if ok is True else (((ok,), (('e', v),)), ((NOT(ok),), (bad,)))
                s.ghost[('acc', f.name)] = Vec((('F', q, alts),))
                out.append(s)
                continue
            ok, v = self.conv(f.base, self.inner(f, ty), val)
            for s2, y in self.split(s, ok):
                if y:
                    self.put(s2, f, ty, v)
                else:
                    self.must(s2, 'an attribute has a malformed value', de_props(self.t, f) | {'C12'})
                out.append(s2)
        return out

    def check_ret(self, st, r):
        eng, t, g = self.eng, self.t, st.ghost
        good = self.isok(r)
        J = []
        for f, ty in self.fields():
            if f.role == 'flatten':
                if f.wrap == 'plain':
                    okc, _ = self.destr(f.base, self.logtext(st), ty)
                    J.append((NOT(okc), {'C09'}))
                continue
            if f.wrap == 'plain' and not f.default:
                d = eng.disc_of(g[('acc', f.name)])
                J.append((d == 0, {'C05'}))
            if f.role == 'attr' and f.wrap == 'vec':
                pres, val = self.attr(f.label)
                ok, _ = self.conv(f.base, self.inner(f, ty), C.split_seq(eng, val).elem)
                J.append((AND(pres, NOT(ok)), {'C13', 'C04'}))
        if not good:
            return self.ret_err(st, J)
        self.nok += 1
        if g['must']:
            return self.ret_must(st)
        pr = self.allprops()
        if not self.need(st, {'C17', 'C03'}, 'returns only at its own end tag', bool(g['closed']), 'returned Ok before the own end tag'):
            return
        self.need(st, {'C17'}, 'stands at its own end tag', self.at_end(st), 'reader not at the own end tag')
        v = r.fields[0]
        if not self.need(st, pr, 'gives a value of its own', isinstance(v, Adt) and len(v.fields) == len(t.fields), repr(v)[:200]):
            return
        for (f, ty), x in zip(self.fields(), v.fields):
            p = de_props(t, f)
            nm = 'field %s has the value the document gives it' % f.name
            if f.role == 'flatten':
                ok, w = self.destr(f.base, self.logtext(st), self.inner(f, ty))
                for s, y in self.split(st, ok):
                    if f.wrap == 'plain' and not y:
                        self.oblig(p | {'C12'}, 'Err when a flattened field cannot be built', False, 'returned Ok', s)
                        continue
                    e = (Adt(ty, 1, [w]) if y else Adt(ty, 0, [])) if f.wrap == 'opt' else w
                    self.oblig(p, nm, self.same(s, x, e), 'specified %r, the code gives %r' % (e, x), s)
                continue
            acc = g[('acc', f.name)]
            if f.wrap != 'plain':
                self.oblig(p, nm, self.same(st, x, acc), 'specified %r, the code gives %r' % (acc, x), st)
                continue
            for s, i in eng.cases(st, acc, None):
                if i == 1:
                    e = eng.fld(acc, 1, 0)
                    q = p
                elif f.default:
                    e = eng.mk(ty, 'const:dflt_' + san(f.default))
                    q = p | {'C05', 'C06'} if False else p | {'C05'}
                else:
                    self.oblig(p | {'C05'}, 'Err when field %s is missing' % f.name, False, 'returned Ok', s)
                    continue
                self.oblig(q, nm, self.same(s, x, e), 'specified %r, the code gives %r' % (e, x), s)

    def logtext(self, st):
        """the text the flattened fields are read from"""
        eng = self.eng
        v = st.ghost[('log', '')]
        r = z3.Const('text[%s]' % eng.canon(v), Str)
        eng.th.keep.append(r)
        eng.texts = getattr(eng, 'texts', {})
        eng.texts[r.get_id()] = v
        return r


class EnumRun(SpecRun):
    def init_ghost(self, st):
        st.ghost['phase'] = None
        st.ghost[('acc', 'value')] = self.none(self.okty)
        self.vty = [[f['ty'] for f in v['fields']] for v in self.prog.T[self.okty]['variants']]

    def labels(self):
        return [v.label for v in self.t.variants]

    def own_start(self, st):
        eng, t = self.eng, self.t
        st.ghost['item'] = {'kind': 'own'}
        L = self.E0.local(eng)
        if not t.tag and (t.flatten or self.mode != 'nested'):
            c = AND(*[NOT(eng.eq(L, x)) for x in self.labels()])
            if not t.flatten:
                c = OR(c, eng.eq(L, t.root))
            if not eng.assume(st, c):
                return []
        return self.ns_must(st, True)

    def items(self, st, only_end=False):
        eng, t, g = self.eng, self.t, st.ghost
        out = []
        if not g['started']:
            if only_end:
                return []
            out += self.base_items(st)
            s = st.fork()
            s.ghost['started'] = True
            s.ghost['pend'] = (('ev', self.E0.start),)
            s.ghost['hist'] += ('own start',)
            return out + self.own_start(s)
        out.append(self.end_item(st))
        if only_end:
            return out
        out += self.base_items(st)
        ph = g.get('phase')
        E = self.fresh_elem()
        conds = [] if t.tag else [NOT(eng.eq(E.local(eng), x)) for x in self.labels()]
        out += self.child(st, conds, {'kind': 'other', 'E': E}, '<unknown>')
        if (ph in (None, 'children') or t.tag and ph != 'text') and not t.flatten:
            # one run of own text; of a tagged enum it means nothing
            x = self.fresh_elem()
            s = st.fork()
            s.ghost['pend'] = (('ev', x.chars),)
            s.ghost['item'] = {'kind': 'text', 'x': x}
            s.ghost['hist'] += ('text',)
            out.append(s)
        if t.tag or ph == 'text':
            return out
        for i, v in enumerate(t.variants):
            if isinstance(ph, tuple) and not (ph[1] == i and v.payload is not None and v.payload.wrap == 'vec'):
                continue
            E = self.fresh_elem()
            k = 'unit' if v.payload is None else 'scalar' if v.payload.scalar else 'child'
            out += self.child(st, [eng.eq(E.local(eng), v.label)], {'kind': k, 'i': i, 'v': v, 'E': E}, '<%s>' % v.name)
        return out

    def set(self, st, i, fields):
        st.ghost[('acc', 'value')] = self.some(self.okty, Adt(self.okty, i, fields))
        st.ghost['phase'] = ('sel', i)

    def inner(self, i):
        ty = self.vty[i][0]
        return ty if self.t.variants[i].payload.wrap == 'plain' else self.prog.T[ty]['args'][0]

    def take(self, st, i, x):
        f = self.t.variants[i].payload
        ty = self.vty[i][0]
        if f.wrap == 'opt':
            x = Adt(ty, 1, [x])
        elif f.wrap == 'vec':
            cur = st.ghost[('acc', 'value')]
            old = ()
            if st.ghost.get('phase') == ('sel', i):
                p = self.eng.fld(self.eng.fld(cur, 1, 0), i, 0)
                old = p.parts
            x = Vec(old + (('e', x),))
        self.set(st, i, [x])

    def finalize(self, st):
        eng, t = self.eng, self.t
        it, b, d = self.pop_item(st)
        if it is None:
            return [st]
        k = it['kind']
        if k == 'own':
            if not t.tag:
                return [st]
            pres, val = self.attr(t.tag)
            out = []
            for s, p in self.split(st, pres):
                if not p:
                    self.must(s, 'the tag attribute is missing', {'C08', 'C12'})
                    out.append(s)
                else:
                    out += self.pick(s, val)
            return out
        if k == 'text':
            out = []
            for s in [st] if t.tag else self.pick(st, it['x'].text):
                s.ghost['phase'] = 'text'
                out.append(s)
            return out
        if st.ghost['phase'] is None:
            st.ghost['phase'] = 'children'      # no variant selected so far
        if k == 'other' or st.ghost['must']:
            return [st]
        i, E = it['i'], it['E']
        if k == 'unit':
            self.set(st, i, [])
            return [st]
        f = it['v'].payload
        if k == 'scalar' and b == 'mixed':
            return [st]
        if k == 'child':
            self.take(st, i, self.de_value(E, f.base, self.inner(i)))
            return [st]
        out = []
        for s, x in self.texts(st, E, b):
            ok, v = self.conv(f.base, self.inner(i), x, False)
            for s2, y in self.split(s, ok):
                if y:
                    self.take(s2, i, v)
                out.append(s2)
        return out

    def pick(self, st, val):
        eng = self.eng
        out = []
        cur = [st]
        for i, v in enumerate(self.t.variants):
            if v.payload is not None:
                continue
            nxt = []
            for s in cur:
                for s2, y in self.split(s, eng.eq(val, v.label)):
                    if y:
                        self.set(s2, i, [])
                        out.append(s2)
                    else:
                        nxt.append(s2)
            cur = nxt
        return out + cur

    def check_ret(self, st, r):
        eng, t, g = self.eng, self.t, st.ghost
        if not self.isok(r):
            return self.ret_err(st, [])
        self.nok += 1
        if g['must']:
            return self.ret_must(st)
        pr = self.allprops()
        if not self.need(st, {'C17', 'C08'}, 'returns only at its own end tag', bool(g['closed']), 'returned Ok before the own end tag'):
            return
        self.need(st, {'C17'}, 'stands at its own end tag', self.at_end(st), 'reader not at the own end tag')
        acc = g[('acc', 'value')]
        for s, i in eng.cases(st, acc, None):
            e = eng.fld(acc, 1, 0) if i == 1 else eng.mk(self.okty, 'default:' + t.name)
            x = r.fields[0]
            self.oblig(pr, 'the variant the document names, with its payload', self.same(s, x, e), 'specified %r, the code gives %r' % (e, x), s)


class PrimRun(SpecRun):
    """A primitive newtype: the text of its element, read with FromStr."""

    def init_ghost(self, st):
        st.ghost[('acc', 'text')] = self.eng.th.lit('')

    def allprops(self):
        return {'C16', 'C12', 'C01'}

    def own_start(self, st):
        return [st]

    def items(self, st, only_end=False):
        out = []
        if not st.ghost['started']:
            if only_end:
                return []
            s = st.fork()
            s.ghost['started'] = True
            s.ghost['pend'] = (('ev', self.E0.start),)
            return self.base_items(st) + [s]
        out.append(self.end_item(st))
        if only_end:
            return out
        out += self.base_items(st)
        if st.ghost.get('phase') is None:
            x = self.fresh_elem()
            s = st.fork()
            s.ghost['pend'] = (('ev', x.chars),)
            s.ghost['item'] = {'kind': 'text', 'x': x}
            s.ghost['hist'] += ('text',)
            out.append(s)
        return out

    def finalize(self, st):
        it, b, d = self.pop_item(st)
        if it is not None:
            st.ghost[('acc', 'text')] = it['x'].text
            st.ghost['phase'] = 'text'
        return [st]

    def content_of(self, r):
        return self.eng.fld(r.fields[0], 0, 0)

    def check_ret(self, st, r):
        eng, g = self.eng, st.ghost
        base = self.t.prim
        ok, v = self.conv(base, None, g[('acc', 'text')], False)
        if getattr(self.t, 'hex', False):
            x = g[('acc', 'text')]
            v = C.hexval(eng, x)
            ok = z3.And(C.hexok(eng, x), v <= C.krange(base)[1])
        if not self.isok(r):
            if not (g['closed'] or g.get('phase') == 'text'):
                ok = True
            return self.ret_err(st, [(NOT(ok), {'C16'})])
        self.nok += 1
        if g['must']:
            return self.ret_must(st)
        r0 = st.store[('root', 'r')]
        ix = reader_fields(eng, r0)
        ev, src = current(eng, st, r0, ix)
        before = ev is None and not g['closed'] and g.get('phase') == 'text' or ev is not None and eng.canon(ev) == eng.canon(self.E0.end)
        self.need(st, {'C17', 'C16'}, 'stands at its own end tag', before, 'reader not at the own end tag')
        self.need(st, {'C16', 'C13'}, 'Err when the text cannot be read', ok if ok is not True else True, 'returned Ok')
        x = self.content_of(r)
        self.oblig({'C16', 'C01', 'C13'}, 'holds what FromStr reads from the text', self.same(st, x, v), 'specified %r, the code gives %r' % (v, x), st)


def verify_de(prog, th, t, rep, mode):
    cls = {'struct': StructRun, 'enum': EnumRun, 'prim': PrimRun}[t.kind]
    r = cls(prog, th, t, rep, mode)
    r.verify()
    if r.unsup:
        rep.add(r.allprops(), r.subject, 'within reach of the verifier', 'unsupported', '; '.join(r.unsup))
    if not r.nok:
        rep.add(r.allprops(), r.subject, 'some path returns Ok', 'refuted', 'vacuous')
    return r


def modes(t):
    return ['top'] if t.flatten else ['nested', 'top']
