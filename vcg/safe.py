"""Safety and progress of every generated deserialize function on arbitrary event streams.

No functional specification here: the reader answers every request with any event or an error, in
any order an XML reader can produce (tags match; nothing follows the end of the document or an
error but itself). Obligations: no panic, no arithmetic overflow, no request-free cycle, no cycle
after the stream has ended or failed, skip_element only inside an element, no descent into another
deserialize before an event was consumed, and Ok only after an event was consumed (or the document
ended). The real loop is cut at every request for an event; the inductive invariant over the live
variables is inferred by anti-unification."""
import z3
from values import *
from engine import Suspend, Outcome, ptrs
import contracts as C
import deser as D
from corpus import CORPUS
from verify_ser import push_body, tyname

P = {'C10'}
ORDER = [t.name for t in CORPUS]
HANG = 60


class SafeRun(D.SpecRun):
    def __init__(self, prog, th, t, rep):
        D.SpecRun.__init__(self, prog, th, t, rep, 'top')
        self.subject = 'deserialize of %s (any input)' % t.name
        self.eng.onspin = self.spin
        self.floor = {0, 1}

    def allprops(self):
        return set(P)

    def oblig(self, props, name, ok, detail='', st=None):
        # an arbitrary stream need not be the stream of a document: never an exact refutation
        self.rep.add(set(P), self.subject, name, 'proved' if ok is True else 'refuted' if ok is False else ok,
                     '' if ok is True else '%s; history %s; when %s' % (detail, ' '.join(st.ghost.get('hist', ())) if st else '', D.pathtxt(st) if st else ''), exact=False)

    def init_ghost(self, st):
        st.ghost.update(started=True, mode='live', at=None, reads=0, calls=0, seen=())
        d = self.d0 = z3.Int('d0')
        st.pc.append(z3.And(d >= 0, d < (1 << 40)))
        r = st.store[('root', 'r')]
        st.store[('root', 'r')] = Adt(r.ty, r.var, [d if f['name'] == 'depth' else x for f, x in zip(self.prog.T[r.ty]['variants'][0]['fields'], r.fields)])
        self.eng.assumptions.add('fewer than 2^31 elements and nesting levels in one document')

    # -- the environment
    def fresh_event(self, kind):
        self.n += 1
        v = self.prog.T[self.ty['XmlEvent']]['variants'][self.evs[kind]]
        return self.event(kind, [self.eng.mk(f['ty'], 'V%d.%s.%d' % (self.n, kind, i)) for i, f in enumerate(v['fields'])])

    def cursor(self, st):
        r = st.store[('root', 'r')]
        return r, D.reader_fields(self.eng, r)

    def consumed(self, st):
        """at least one event has been taken off the stream, not only looked at"""
        r, ix = self.cursor(st)
        g = st.ghost
        return g['reads'] - (1 if r.fields[ix[2]].fields else 0) >= 1

    def items(self, st, only_end=False):
        if only_end:
            return []
        eng = self.eng
        out = []
        r, ix = self.cursor(st)
        d = r.fields[ix[0]]
        if st.ghost['at'] == 'skip':
            s = st.fork()
            if eng.assume(s, z3.And(d >= 0, d < (1 << 41))):
                s.ghost['at'] = 'go'
                out.append(s)
            return out
        for k in list(self.evs) + ['error']:
            s = st.fork()
            if not eng.assume(s, z3.And(d >= (1 if k == 'EndElement' else 0), d < (1 << 41))):
                continue
            if k == 'EndDocument' and not eng.assume(s, eng.eq(d, 0)):
                continue
            eng.assumptions.add('xml-rs delivers matching tags, and the end of the document only after them')
            s.ghost['pend'] = (('err',),) if k == 'error' else (('ev', self.fresh_event(k)),)
            s.ghost['hist'] += (k,)
            if k in ('error', 'EndDocument'):
                s.ghost['mode'] = 'failed' if k == 'error' else 'ended'
            else:
                s.ghost['reads'] = min(2, s.ghost['reads'] + 1)
            s.ghost['sticky'] = ()
            out.append(s)
        return out

    def next_raw(self, eng, st, c):
        g = st.ghost
        if g['pend']:
            tok = g['pend'][0]
            g['pend'] = ()
        elif g['mode'] == 'live':
            raise Suspend('demand')
        else:
            # the stream stays what it is; the code must give up
            sig = self.signature(st)
            if sig in g['sticky']:
                raise Suspend('hang', 'keeps reading after the stream has %s' % g['mode'])
            g['sticky'] += (sig,)
            if len(g['sticky']) > HANG:
                raise Unsupported('still reading after %d requests beyond the end of the stream' % HANG)
            tok = ('err',) if g['mode'] == 'failed' else ('ev', self.event('EndDocument', []))
        if tok[0] == 'err':
            return [(st, C.err(eng, c.rty, C.errval(eng, c.rty, 'reader_err')))]
        return [(st, C.ok(eng, c.rty, tok[1]))]

    def signature(self, st):
        eng = self.eng
        cells, _ = D.skeleton(self, st)
        return (tuple((fr.fn, fr.bb) for fr in st.frames), st.ghost['calls'],
                tuple(sorted((str(n), eng.canon(st.store[c])) for n, c in cells.items() if c in st.store)))

    def spin(self, st):
        """called now and then on a long path without a request"""
        sig = self.signature(st)
        if sig in st.ghost['seen']:
            raise Suspend('hang', 'cycles without reading')
        st.ghost['seen'] += (sig,)

    # -- contracts
    def h_deserialize(self, eng, st, c):
        if len(st.frames) == 1:
            return push_body(eng, st, c)
        T = tyname(eng, D.selfty(eng, c.f))
        # an enum at the document root may hand its own element on, but only down the order of the types
        down = T in ORDER and ORDER.index(T) < ORDER.index(self.t.name)
        self.oblig(P, 'has consumed an event before it descends', down or self.consumed(st), 'deserialize of %s called on the first event' % T, st)
        r, ix = self.cursor(st)
        st.ghost['calls'] += 1
        # Err without having consumed anything, Err after any part of the stream, Ok after at least one event
        same = st.fork()
        moved = st.fork()
        outs = [(same, C.err(eng, c.rty, C.errval(eng, c.rty, 'child_err')))]
        same.ghost['calls'] -= 1
        for s, res in ((moved, 'err'), (st, 'ok')):
            for mode in ('live', 'failed', 'ended'):
                if res == 'ok' and mode == 'failed':
                    continue
                if s.ghost['mode'] != 'live' and mode != s.ghost['mode']:
                    continue
                s2 = s.fork()
                d = z3.Int(eng.fresh('d'))
                s2.pc.append(z3.And(d >= 0, d < (1 << 40)))
                s2.ghost['mode'] = mode
                s2.ghost['sticky'] = s2.ghost.get('sticky', ())
                s2.ghost['reads'] = 2
                # an event looked ahead at and one not yet read are the same to every cursor function (their contracts)
                D.set_reader(eng, s2, D.reader_ptr(eng, s2, c.args[0]), r, ix, depth=d, peeked=self.opt_ev())
                v = C.ok(eng, c.rty, eng.mk(eng.p.T[c.rty]['args'][0], eng.fresh('de'))) if res == 'ok' else C.err(eng, c.rty, C.errval(eng, c.rty, 'child_err'))
                outs.append((s2, v))
        return outs

    def h_skip(self, eng, st, c):
        if st.ghost['mode'] == 'live' and st.ghost['at'] is None:
            # skipping makes progress like a request does: cut here too
            st.ghost['at'] = 'skip'
            raise Suspend('demand')
        st.ghost['at'] = None
        p = D.reader_ptr(eng, st, c.args[0])
        r, ix = self.cursor(st)
        d = r.fields[ix[0]]
        e = eng.th.prove(st.pc, d >= 1) == 'proved' if is_z3(d) else d >= 1
        self.oblig(P, 'skips only inside an element', e, 'skip_element at depth %s' % (d,), st)
        if not eng.assume(st, d >= 1):
            return []
        bad = st.fork()
        st.ghost['calls'] += 1
        bad.ghost['mode'] = 'failed'
        bad.ghost['sticky'] = bad.ghost.get('sticky', ())
        D.set_reader(eng, bad, p, r, ix, peeked=self.opt_ev())
        outs = [(bad, C.err(eng, c.rty, C.errval(eng, c.rty, 'reader_err')))]
        if st.ghost['mode'] == 'live':
            st.ghost['reads'] = 2
            D.set_reader(eng, st, p, r, ix, depth=D.plus(d, -1), peeked=self.opt_ev())
            self.n += 1
            E = D.Elem(self, 'S%d' % self.n)
            for s in self.callback(eng, st, c, [('seq', self.events_of(E))]):
                outs.append((s, C.ok(eng, c.rty)))
        return outs

    def confused(self, st, why):
        raise Unsupported(why)

    # -- cuts
    def loc(self, st):
        g = st.ghost
        return tuple((fr.fn, fr.bb) for fr in st.frames) + (g['mode'], g['reads'], g['at'])

    def finalize(self, st):
        st.ghost['item'] = None
        st.ghost['seen'] = ()
        return [st]

    def resync(self, st):
        pass

    def check_ret(self, st, r):
        self.oblig(P, 'returns', True)
        if self.isok(r):
            self.nok += 1
            self.oblig(P, 'Ok only after an event was consumed', self.consumed(st) or st.ghost['mode'] == 'ended', 'nothing was consumed', st)


def verify_safe(prog, th, t, rep):
    r = SafeRun(prog, th, t, rep)
    r.verify()
    if r.unsup:
        rep.add(set(P), r.subject, 'within reach of the verifier', 'unsupported', '; '.join(r.unsup))
    if not r.nok:
        rep.add(set(P), r.subject, 'some path returns Ok', 'refuted', 'vacuous', exact=False)
    return r
