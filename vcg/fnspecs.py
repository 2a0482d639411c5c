"""Contracts of the runtime library's own functions, checked against their MIR: the reader cursor
(yaserde/src/de), the serializer entry points (yaserde/src/ser), the primitive newtypes
(yaserde/src/primitives.rs) and the scalar impls (yaserde/src/lib.rs)."""
import z3
from values import *
from engine import Engine, State, Suspend
import contracts as C
import deser as D
import verify_ser as VS
from corpus import SCALARS

TRUSTED = ['the MIR rustc emits for /repo and the extraction of it by mirdump', 'vcg: symbolic execution of MIR, contracts of std and xml-rs in contracts.py',
           'z3', 'the specification in verify_ser.py, deser.py and fnspecs.py']
ASSUME = {}

PROLOGUE = ('StartDocument', 'ProcessingInstruction', 'Comment')
CURSOR = ['peek', 'inner_next', 'next_event', 'skip', 'depth', 'read_inner', 'expect_end', 'new', 'from_reader', 'from_str']
ENTRY = ['to_string', 'to_string_cfg', 'writer', 'content', 'writer_content', 'cfg_default', 'skip', 'name']
EMITTER = dict(line_separator='\n', indent_string='  ', perform_indent=False, perform_escaping=True, write_document_declaration=True,
               normalize_empty_elements=True, cdata_to_characters=False, keep_element_names_stack=True, autopad_comments=True, pad_self_closing=True)
PARSER = dict(trim_whitespace=False, whitespace_to_characters=False, cdata_to_characters=False, ignore_comments=True, coalesce_characters=True,
              ignore_end_of_stream=False, replace_unknown_entity_references=False, ignore_root_level_whitespace=True, allow_multiple_root_elements=False)


def names():
    return ['cur_' + n for n in CURSOR] + ['ent_' + n for n in ENTRY] + ['pri_ser', 'pri_de'] + [
        p + k for k in SCALARS + ['char', 'usize', 'isize'] for p in ('val_', 'vat_')]


def props(name):
    if name.startswith('cur_'):
        return {'C11', 'C10'} | ({'C12'} if 'from' not in name and name not in ('cur_new', 'cur_depth') else set())
    if name.startswith('ent_'):
        return {'C15', 'C12'}
    if name.startswith('pri_'):
        return {'C16', 'C12'} | ({'C10'} if name == 'pri_de' else set())
    return {'C13', 'C12', 'C02'} if name.startswith('val_') else {'C13', 'C04'}


SUBJECT = dict(cur_peek='Deserializer::peek', cur_inner_next='Deserializer::inner_next', cur_next_event='Deserializer::next_event', cur_skip='Deserializer::skip_element',
               cur_depth='Deserializer::depth', cur_read_inner='Deserializer::read_inner_value', cur_expect_end='Deserializer::expect_end_element',
               cur_new='Deserializer::new_from_reader', cur_from_reader='de::from_reader', cur_from_str='de::from_str', ent_to_string='ser::to_string',
               ent_to_string_cfg='ser::to_string_with_config', ent_writer='ser::serialize_with_writer', ent_content='ser::to_string_content',
               ent_writer_content='ser::serialize_with_writer_content', ent_cfg_default='ser::Config::default', ent_skip='Serializer::set_skip_start_end',
               ent_name='Serializer::set_start_event_name', pri_ser='primitives::serialize_primitives', pri_de='primitives::deserialize_primitives')


def subject(name):
    if name in SUBJECT:
        return SUBJECT[name]
    return '<%s as YaSerialize>::%s' % (name[4:], 'serialize' if name.startswith('val_') else 'serialize_attributes')


class Named:
    """stands where a corpus type is expected"""
    prim = 'Opq'
    kind = 'fn'
    fields = variants = None
    tag = None
    flatten = False

    def __init__(self, name):
        self.name = name


# -- the reader cursor ---------------------------------------------------------------------------------------------
class CurRun(D.SpecRun):
    """One cursor function on every raw event stream and every cursor state. The ghost state is the
    abstract cursor: number of open elements, the event looked ahead at, the events delivered."""

    def __init__(self, prog, th, fn, rep):
        D.SpecRun.__init__(self, prog, th, Named('cursor'), rep, 'nested')
        self.fn = fn
        self.subject = subject('cur_' + fn)
        self.pr = props('cur_' + fn)
        # the bodies of the cursor's functions, not their contracts
        self.eng.hooks[:] = [(lambda f: (f['decl'] or '').endswith('::opq_inner'), self.h_inner)]

    def allprops(self):
        return set(self.pr)

    def fresh_event(self, kind):
        eng = self.eng
        self.n += 1
        v = self.prog.T[self.ty['XmlEvent']]['variants'][self.evs[kind]]
        return self.event(kind, [eng.mk(f['ty'], 'V%d.%s.%d' % (self.n, kind, i)) for i, f in enumerate(v['fields'])])

    def start(self):
        eng = self.eng
        key = VS.root_key(self.prog, 'root_cur_' + self.fn)
        L = self.prog.fn(key)['locals']
        rty = self.prog.T[L[1]]['ty']
        self.okty = self.prog.T[self.prog.fn(key)['locals'][0]]['args'][0]
        self.d0 = z3.Int('d0')
        pks = [None] if self.fn == 'inner_next' else [None] + [k for k in self.evs if k not in PROLOGUE]
        for pk in pks:
            st = State()
            st.ghost.update(pend=(), must=None, closed=False, started=True, item=None, hist=('peeked ' + pk,) if pk else (), phase='start')
            st.pc.append(z3.And(self.d0 >= (1 if self.fn in ('skip',) or pk == 'EndElement' else 0), self.d0 < (1 << 40)))
            eng.assumptions.add('fewer than 2^31 elements and nesting levels in one document')
            ev = self.fresh_event(pk) if pk else None
            # the lookahead of inner_next is whatever it is: it is not the function's business
            st.ghost[('acc', 'd')] = self.d0
            st.ghost[('acc', 'pk')] = self.opt_ev(ev)
            st.ghost[('log', '')] = Vec((('s', eng.seq('log', self.ty['XmlEvent'])),))
            vals = []
            for f in self.prog.T[rty]['variants'][0]['fields']:
                vals.append(self.d0 if f['name'] == 'depth' else self.opt_ev(ev) if f['name'] == 'peeked' else Obj('ER', inner=None, cfg=None) if f['name'] == 'reader'
                            else eng.mk(f['ty'], 'reader_' + f['name']))
            st.store[('root', 'r')] = Adt(rty, 0, vals)
            args = [Ptr(('root', 'r'))]
            if self.fn == 'skip':
                st.store[('root', 'log')] = st.ghost[('log', '')]
                args.append(Ptr(('root', 'log')))
            if self.fn == 'expect_end':
                self.name = Sym(self.ty['OwnedName'], 'start_name')
                args.append(RefV(self.name))
            if self.fn == 'read_inner':
                self.name = None
            for s in self.want(st):
                s2 = s.fork()
                eng.push(s2, key, args, None, None)
                yield s2

    # the specification -----------------------------------------------------------------------------------------
    def want(self, st):
        """the function needs an event: the one looked ahead at, if any, is it"""
        pk = st.ghost[('acc', 'pk')]
        if st.ghost['phase'] in ('done', 'inner') or not pk.fields:
            return [st]
        if self.fn == 'peek':
            self.done(st, pk.fields[0])
            return [st]
        if self.fn == 'inner_next':
            return [st]
        st.ghost[('acc', 'pk')] = self.opt_ev()
        return self.deliver(st, pk.fields[0])

    def done(self, st, v=None, err=None):
        st.ghost['phase'] = 'done'
        if err:
            st.ghost['must'] = err
            st.ghost['mustprops'] = frozenset(self.pr)
        st.ghost[('ev', 'exp')] = self.opt_ev(v)

    def deliver(self, st, ev):
        g = st.ghost
        k = self.evname(ev)
        if self.fn == 'peek':
            g[('acc', 'pk')] = self.opt_ev(ev)
            self.done(st, ev)
            return [st]
        d = {'StartElement': 1, 'EndElement': -1}.get(k, 0) if self.fn != 'inner_next' else 0
        g[('acc', 'd')] = D.plus(g[('acc', 'd')], d) if d else g[('acc', 'd')]
        if self.fn in ('inner_next', 'next_event'):
            self.done(st, ev)
        elif self.fn == 'skip':
            g[('log', '')] = Vec(g[('log', '')].parts + (('e', ev),))
            out = []
            for s, y in self.split(st, g[('acc', 'd')] < self.d0):
                if y:
                    self.done(s)
                out.append(s)
            return out
        elif self.fn == 'expect_end' or self.fn == 'read_inner' and g['phase'] == 'end':
            n = self.name if self.fn == 'expect_end' else g[('acc', 'name')]
            if k != 'EndElement':
                self.done(st, err='the next event is not an end tag')
                return [st]
            out = []
            for s, y in self.split(st, self.eng.eq(ev.fields[0], n)):
                self.done(s, err=None if y else 'the end tag has another name')
                out.append(s)
            return out
        elif self.fn == 'read_inner':
            if k == 'StartElement':
                g['phase'] = 'inner'
                g[('acc', 'name')] = ev.fields[0]
            else:
                self.done(st, err='the next event is not a start tag')
        return [st]

    def h_inner(self, eng, st, c):
        """any callback: it fails, or succeeds and leaves the cursor in any state"""
        if st.ghost['phase'] != 'inner':
            self.oblig(self.pr, 'calls back only inside the element', False, 'callback in phase %s' % st.ghost['phase'], st)
            return []
        self.oblig(self.pr, 'calls back only inside the element', True)
        p = D.reader_ptr(eng, st, c.args[0])
        r = eng.load(st, p.cell, p.path)
        ix = D.reader_fields(eng, r)
        self.check_cursor(st, r)
        outs = []
        for pk in ('fail', None) + tuple(k for k in self.evs if k not in PROLOGUE):
            s = st.fork()
            d = z3.Int(eng.fresh('d'))
            s.pc.append(z3.And(d >= (1 if pk == 'EndElement' else 0), d < (1 << 40)))
            ev = self.fresh_event(pk) if pk and pk != 'fail' else None
            s.ghost[('acc', 'd')] = d
            s.ghost[('acc', 'pk')] = self.opt_ev(ev)
            s.ghost['hist'] += ('callback fails' if pk == 'fail' else 'callback, next %s' % pk,)
            D.set_reader(eng, s, p, r, ix, depth=d, peeked=self.opt_ev(ev))
            if pk == 'fail':
                self.done(s, err='the callback failed')
                outs.append((s, C.err(eng, c.rty, C.errval(eng, c.rty, 'inner_err'))))
            else:
                v = eng.mk(eng.p.T[c.rty]['args'][0], 'inner_value')
                s.ghost['phase'] = 'end'
                for s2 in self.want(s):
                    outs.append((s2, C.ok(eng, c.rty, v)))
        return outs

    # the stream ---------------------------------------------------------------------------------------------------
    def loc(self, st):
        return tuple((fr.fn, fr.bb) for fr in st.frames) + (st.ghost['phase'],)

    def items(self, st, only_end=False):
        if only_end:
            return []
        out = []
        for k in self.evs:
            s = st.fork()
            ev = self.fresh_event(k)
            d = s.ghost[('acc', 'd')]
            # the reader matches tags: an end tag comes only while an element is open
            end = k == 'EndElement' and self.fn != 'inner_next'
            if not self.eng.assume(s, z3.And(d >= (1 if end else 0), d < (1 << 41))):
                continue
            if end:
                self.eng.assumptions.add('xml-rs delivers matching tags')
            s.ghost['pend'] = (('ev', ev),)
            s.ghost['item'] = {'kind': k, 'ev': ev}
            s.ghost['hist'] += (k,)
            out.append(s)
        s = st.fork()
        s.ghost['pend'] = (('err',),)
        s.ghost['item'] = {'kind': 'error'}
        s.ghost['hist'] += ('error',)
        out.append(s)
        return out

    def next_raw(self, eng, st, c):
        if st.ghost['pend']:
            it = st.ghost['item']
            if it['kind'] in PROLOGUE or it['kind'] == 'error':
                return D.SpecRun.next_raw(self, eng, st, c)
            # the specification moves with the event, before the code sees it
            st.ghost['item'] = None
            st.ghost['pend'] = ()
            return [(s, C.ok(eng, c.rty, it['ev'])) for s in self.deliver(st, it['ev'])]
        return D.SpecRun.next_raw(self, eng, st, c)

    def finalize(self, st):
        st.ghost['item'] = None
        return [st]

    def arrive(self, st):
        if st.ghost['must'] or st.ghost['phase'] in ('done', 'inner'):
            self.oblig(self.pr, 'takes no event it does not need', False, 'another event is requested', st)
            return
        D.SpecRun.arrive(self, st)

    def check_cursor(self, st, r):
        eng = self.eng
        ix = D.reader_fields(eng, r)
        d = eng.eq(r.fields[ix[0]], st.ghost[('acc', 'd')])
        self.need(st, self.pr, 'depth is the number of open elements', d, 'depth is %s' % (r.fields[ix[0]],))
        self.oblig(self.pr, 'the event looked ahead at is kept exactly when it is not delivered', self.same(st, r.fields[ix[2]], st.ghost[('acc', 'pk')]),
                   'lookahead %r, specified %r' % (r.fields[ix[2]], st.ghost[('acc', 'pk')]), st)

    def check_ret(self, st, r):
        eng, g = self.eng, st.ghost
        good = self.isok(r)
        if g['must']:
            self.oblig(set(self.pr), 'Err when ' + g['must'], not good, 'returned Ok', st)
            return
        if g['phase'] != 'done':
            self.oblig(self.pr, 'reads on until it is done', False, 'returned early', st)
            return
        self.nok += 1
        if not good:
            self.oblig(self.pr, 'Ok when the reader delivers what is asked for', False, 'returned Err', st)
            return
        self.oblig(self.pr, 'Ok when the reader delivers what is asked for', True)
        self.check_cursor(st, st.store[('root', 'r')])
        if self.fn in ('peek', 'inner_next', 'next_event'):
            e = g[('ev', 'exp')].fields[0]
            self.oblig(self.pr, 'gives the next event of the stream', self.same(st, r.fields[0], e), 'specified %r, the code gives %r' % (e, r.fields[0]), st)
        if self.fn == 'skip':
            self.oblig(self.pr, 'hands every event to the callback, once and in order', self.same(st, st.store[('root', 'log')], g[('log', '')]),
                       'handed over %r, specified %r' % (st.store[('root', 'log')], g[('log', '')]), st)
        if self.fn == 'read_inner':
            self.oblig(self.pr, 'gives what the callback gave', eng.canon(r.fields[0]) == eng.canon(eng.mk(self.okty, 'inner_value')), repr(r.fields[0]), st)


def ret_kind(eng, r):
    return eng.p.T[r.ty]['variants'][r.var]['name'].split('::')[-1]


class Fn:
    """straight-line functions: run, then look at every outcome"""

    def __init__(self, prog, th, name, rep):
        self.prog, self.rep, self.name = prog, rep, name
        self.eng = Engine(prog, th)
        self.key = VS.root_key(prog, 'root_' + name)
        self.L = prog.fn(self.key)['locals']
        self.st = State()
        self.subj = subject(name)
        self.pr = props(name)
        self.nok = 0

    def run(self, args):
        eng = self.eng
        eng.push(self.st, self.key, args, None, None)
        for o in eng.run_all(self.st):
            if o.kind == 'panic':
                self.ob('does not panic', False, o.value, o.st)
            elif o.kind != 'ret':
                raise Unsupported('outcome %s %s' % (o.kind, o.value))
            else:
                yield o

    def ob(self, what, ok, detail='', st=None, pr=None):
        status = 'proved' if ok is True else 'refuted' if ok is False else ok
        self.rep.add(pr or self.pr, self.subj, what, status, '' if ok is True else '%s; when %s' % (detail, VS.pathtxt(st) if st else ''))
        return ok is True

    def same(self, st, a, b):
        c = VS.Cmp(self.eng)
        r = c.parts(st.pc, a.parts, b.parts) if isinstance(a, Vec) and isinstance(b, Vec) else c.val(st.pc, a, b)
        return r if r or not c.unknown else 'unknown'

    def is_ok(self, r):
        return ret_kind(self.eng, r) == 'Ok'


def h_opq_de(eng, st, c):
    if len(st.frames) == 1:
        return VS.push_body(eng, st, c)
    p = D.reader_ptr(eng, st, c.args[0])
    st.ghost['read'] = st.ghost.get('read', 0) + 1
    st.ghost['from'] = eng.load(st, p.cell, p.path)
    bad = st.fork()
    bad.ghost['child_err'] = True
    return [(bad, C.err(eng, c.rty, C.errval(eng, c.rty, 'opq_err'))), (st, C.ok(eng, c.rty, eng.mk(eng.p.T[c.rty]['args'][0], 'opq_value')))]


def effective(cfg, base):
    d = dict(base)
    for k, v in cfg.a['opts']:
        d[k] = v
    return d


def fresh_reader(f, st, r, src):
    """a new cursor over this source: nothing open, nothing looked ahead at, and the documented reading mode"""
    eng = f.eng
    ix = D.reader_fields(eng, r)
    f.ob('starts with no open element', f.same(st, r.fields[ix[0]], 0), repr(r.fields[ix[0]]), st)
    pk = r.fields[ix[2]]
    f.ob('starts with nothing looked ahead at', isinstance(pk, Adt) and not pk.fields, repr(pk), st)
    er = r.fields[ix[1]]
    def strip(v):
        while isinstance(v, (RefV, Ptr)):
            v = v.v if isinstance(v, RefV) else eng.load(st, v.cell, v.path)
        return v
    f.ob('reads the given source', eng.canon(strip(er.a['inner'])) == eng.canon(strip(src)), repr(er.a['inner']), st)
    got = effective(er.a['cfg'], PARSER) if er.a['cfg'] is not None else dict(PARSER)
    want = dict(PARSER, trim_whitespace=True, whitespace_to_characters=True, cdata_to_characters=True, ignore_comments=True, coalesce_characters=True)
    bad = [k for k in sorted(set(got) | set(want)) if got.get(k) is not want.get(k) and got.get(k) != want.get(k)]
    f.ob('reads text trimmed and in one run, CDATA as text, without comments', not bad, str([(k, got.get(k)) for k in bad]), st, {'C11', 'C14'})


def verify_cursor_new(f):
    eng = f.eng
    fn = f.name[4:]
    eng.hooks += [(lambda x: VS.is_trait(x, 'YaDeserialize::deserialize'), h_opq_de)]
    if fn == 'from_str':
        src = z3.Const('src', Str)
        args = [RefV(src)]
    else:
        src = eng.mk(f.L[1], 'src')
        args = [src]
    for o in f.run(args):
        if fn == 'new':
            f.nok += 1
            fresh_reader(f, o.st, o.value, src)
            continue
        f.ob('deserializes once', o.st.ghost.get('read') == 1, str(o.st.ghost.get('read')), o.st)
        if o.st.ghost.get('read') != 1:
            continue
        fresh_reader(f, o.st, o.st.ghost['from'], src)
        bad = 'child_err' in o.st.ghost
        if f.ob('Err exactly when the deserializer of the type fails', f.is_ok(o.value) != bad, '', o.st) and not bad:
            f.nok += 1
            f.ob('gives what the deserializer of the type gave', eng.canon(o.value.fields[0]) == eng.canon(eng.mk(eng.p.T[o.value.ty]['args'][0], 'opq_value')), repr(o.value), o.st)


def verify_depth(f):
    eng = f.eng
    rty = f.prog.T[f.L[1]]['ty']
    r = eng.mk(rty, 'r')
    vals = []
    for x in f.prog.T[rty]['variants'][0]['fields']:
        vals.append(Obj('ER', inner=None, cfg=None) if x['name'] == 'reader' else eng.mk(x['ty'], 'r.' + x['name']))
    f.st.store[('root', 'r')] = Adt(rty, 0, vals)
    ix = D.reader_fields(eng, f.st.store[('root', 'r')])
    for o in f.run([Ptr(('root', 'r'))]):
        f.nok += 1
        f.ob('gives the number of open elements', f.same(o.st, o.value, vals[ix[0]]), repr(o.value), o.st)
        r2 = o.st.store[('root', 'r')]
        f.ob('changes nothing', eng.canon(r2.fields[ix[0]]) == eng.canon(vals[ix[0]]) and eng.canon(r2.fields[ix[2]]) == eng.canon(vals[ix[2]]), repr(r2), o.st)


# -- the serializer ------------------------------------------------------------------------------------------------------
def verify_entry(f):
    eng, prog = f.eng, f.prog
    fn = f.name[4:]
    eng.hooks += [
        (lambda x: VS.is_trait(x, 'YaSerialize::serialize'), VS.h_serialize),
        (lambda x: VS.is_trait(x, 'YaSerialize::serialize_attributes'), VS.h_serialize_attributes)]
    if fn == 'cfg_default':
        for o in f.run([]):
            f.nok += 1
            v = o.value
            names = [x['name'] for x in prog.T[v.ty]['variants'][0]['fields']]
            for n, e in (('perform_indent', False), ('write_document_declaration', True), ('indent_string', None)):
                f.ob('%s is %s by default' % (n, e), f.same(o.st, v.fields[names.index(n)], e), repr(v), o.st)
        return
    if fn in ('skip', 'name'):
        sty = prog.T[f.L[1]]['ty']
        s0 = VS.new_serializer(eng, sty)
        f.st.store[('root', 'w')] = s0
        ix = VS.ser_fields(eng, s0)
        a = eng.mk(f.L[2], 'arg')
        for o in f.run([Ptr(('root', 'w')), a]):
            f.nok += 1
            f.ob('the setting reads back as it was set', f.same(o.st, o.value, a), repr(o.value), o.st)
            s1 = o.st.store[('root', 'w')]
            i = ix[1] if fn == 'skip' else ix[2]
            for j, (x, y) in enumerate(zip(s0.fields, s1.fields)):
                if j != i:
                    f.ob('other settings stay as they are', eng.canon(x) == eng.canon(y), repr(y), o.st)
        return
    v = eng.mk(prog.T[f.L[1]]['ty'], 'v')
    args = [RefV(v)]
    w = None
    if fn in ('writer', 'writer_content'):
        w = eng.mk(f.L[2], 'w')
        args.append(w)
    cfg = None
    if fn in ('writer', 'to_string_cfg'):
        cty = prog.T[f.L[len(args) + 1]]['ty']
        names = [x['name'] for x in prog.T[cty]['variants'][0]['fields']]
        cfg = Adt(cty, 0, [eng.mk(x['ty'], 'cfg.' + x['name']) for x in prog.T[cty]['variants'][0]['fields']])
        args.append(RefV(cfg))
    for o in f.run(args):
        st, r = o.st, o.value
        bad = 'child_err' in st.ghost or 'fault' in st.ghost
        if not f.ob('Err exactly when serializing the value fails', f.is_ok(r) != bad, ret_kind(eng, r), st) or bad:
            continue
        f.nok += 1
        out = r.fields[0]
        if fn in ('to_string', 'to_string_cfg', 'content'):
            t = eng.strval(out)
            out = getattr(eng, 'texts', {}).get(t.get_id())
            if not f.ob('gives the text that was written', isinstance(out, Obj) and out.kind == 'Bytes', repr(r.fields[0]), st):
                continue
        else:
            if not f.ob('gives the writer back', isinstance(out, Obj) and out.kind == 'Sunk', repr(out), st):
                continue
            f.ob('writes to the given writer', eng.canon(out.a['inner']) == eng.canon(w), repr(out.a['inner']), st)
        log = out.a['log'].parts
        if not f.ob('the value is serialized once and nothing else is written', len(log) == 1 and log[0][0] == 'e' and log[0][1].kind == 'Emit', repr(log), st):
            continue
        e = log[0][1]
        f.ob('the value given is the one serialized', eng.canon(e.a['v']) == eng.canon(v), repr(e.a['v']), st)
        f.ob('outer tags are %s' % ('suppressed' if 'content' in fn else 'written'), f.same(st, e.a['skip'], 'content' in fn), repr(e.a['skip']), st)
        f.ob('no name is imposed on the root', f.same(st, e.a['name'], None), repr(e.a['name']), st)
        want = dict(EMITTER)
        if cfg is not None:
            want['perform_indent'] = cfg.fields[names.index('perform_indent')]
            want['write_document_declaration'] = cfg.fields[names.index('write_document_declaration')]
            ind = cfg.fields[names.index('indent_string')]
        else:
            ind = None
            want['write_document_declaration'] = 'content' not in fn
        got = effective(out.a['cfg'], EMITTER) if out.a['cfg'] is not None else dict(EMITTER)
        cases = [(st, None)]
        if ind is not None:
            cases = [(s, eng.fld(ind, 1, 0) if i == 1 else None) for s, i in eng.cases(st, ind, None)]
        for s, x in cases:
            if x is not None:
                want['indent_string'] = x
            else:
                want['indent_string'] = EMITTER['indent_string']
            for k in sorted(set(got) | set(want)):
                if k not in want or k not in got:
                    f.ob('the emitter setting %s is the configured one' % k, 'unknown', 'setting %s' % k, s)
                    continue
                a, b = got[k], want[k]
                if isinstance(b, str) or is_z3(b) and b.sort() == Str:
                    ok = f.same(s, eng.strval(a) if not isinstance(a, str) else eng.th.lit(a), eng.strval(b) if not isinstance(b, str) else eng.th.lit(b))
                else:
                    ok = f.same(s, a, b)
                f.ob('the emitter setting %s is the configured one' % k, ok, 'set to %r' % (a,), s)


def verify_pri_ser(f):
    eng, prog = f.eng, f.prog

    def show(eng, st, c):
        v = C.deref(eng, st, c.args[0])
        t = z3.Const('show[%s]' % eng.canon(v), Str)
        eng.th.keep.append(t)
        return [(st, t)]
    eng.hooks += [(lambda x: (x['decl'] or '').endswith('::opq_show'), show)]
    sty = prog.T[f.L[3]]['ty']
    s0 = VS.new_serializer(eng, sty)
    ix = VS.ser_fields(eng, s0)
    f.st.store[('root', 'w')] = s0
    v = eng.mk(prog.T[f.L[1]]['ty'], 'v')
    n = z3.Const('default_name', Str)
    spec = VS.SerSpec(eng, Named('Opq'))
    pr = {'C16', 'C12', 'C01'}
    for o in f.run([RefV(v), RefV(n), Ptr(('root', 'w'))]):
        bad = 'fault' in o.st.ghost
        if not f.ob('Err exactly when a write fails', f.is_ok(o.value) != bad, ret_kind(eng, o.value), o.st, {'C12', 'C16'}) or bad:
            continue
        f.nok += 1
        log = o.st.store[('root', 'w')].fields[ix[0]].a['log'].parts
        text = z3.Const('show[%s]' % eng.canon(v), Str)
        eng.th.keep.append(text)
        for s, sk in spec.split(o.st, s0.fields[ix[1]]):
            for s2, nm in spec.options(s, s0.fields[ix[2]]):
                ch = ('text', pr, [spec.chars(text)])
                gs = [ch] if sk else [('start tag', pr, [spec.start(nm if nm is not None else n)]), ch, ('end tag', pr, [spec.END])]
                VS.compare(eng, f.rep, f.subj, s2, log, gs)


class PriDe(D.PrimRun):
    """deserialize_primitives with an arbitrary reading function"""

    def __init__(self, prog, th, rep):
        D.PrimRun.__init__(self, prog, th, Named('pri'), rep, 'nested')
        self.subject = subject('pri_de')
        self.root = 'root_pri_de'
        self.eng.hooks[:0] = [(lambda f: (f['decl'] or '').endswith('::opq_text'), self.h_text)]

    def conv(self, base, tyid, s, mapbool=True):
        k = self.eng.canon(self.eng.strval(s))
        ok = z3.Bool('opq_ok[%s]' % k)
        self.eng.th.keep.append(ok)
        return ok, self.eng.mk(self.okty, 'opq_val[%s]' % k)

    def h_text(self, eng, st, c):
        ok, v = self.conv(None, None, C.deref(eng, st, c.args[0]))
        return [(s, C.ok(eng, c.rty, v) if y else C.err(eng, c.rty, C.errval(eng, c.rty, 'opq_err'))) for s, y in eng.branch(st, ok)]

    def content_of(self, r):
        return r.fields[0]


def verify_val(f):
    eng, prog = f.eng, f.prog
    k = f.name[4:]
    v = eng.mk(prog.T[f.L[1]]['ty'], 'v')
    if f.name.startswith('vat_'):
        a = eng.mk(f.L[2], 'srcattrs')
        n = Obj('NS', parts=(('x', 'srcns'),))
        for o in f.run([RefV(v), a, n]):
            if f.ob('Ok', f.is_ok(o.value), '', o.st):
                f.nok += 1
                t = o.value.fields[0]
                f.ob('a scalar adds no attribute', eng.canon(t.fields[0]) == eng.canon(a), repr(t), o.st)
                f.ob('a scalar adds no namespace', eng.canon(t.fields[1]) == eng.canon(n), repr(t), o.st)
        return
    sty = prog.T[f.L[2]]['ty']
    s0 = VS.new_serializer(eng, sty)
    ix = VS.ser_fields(eng, s0)
    f.st.store[('root', 'w')] = s0
    spec = VS.SerSpec(eng, Named('scalar'))
    for o in f.run([RefV(v), Ptr(('root', 'w'))]):
        bad = 'fault' in o.st.ghost
        if not f.ob('Err exactly when a write fails', f.is_ok(o.value) != bad, ret_kind(eng, o.value), o.st, {'C12', 'C13'}) or bad:
            continue
        f.nok += 1
        log = o.st.store[('root', 'w')].fields[ix[0]].a['log'].parts
        VS.compare(eng, f.rep, f.subj, o.st, log, [('the Display form', {'C13', 'C02'}, [spec.chars(C.display(eng, k, v))])])


def verify(prog, th, name, rep):
    if name.startswith('cur_') and name[4:] in ('peek', 'inner_next', 'next_event', 'skip', 'read_inner', 'expect_end'):
        r = CurRun(prog, th, name[4:], rep)
        return finish(r, rep)
    if name == 'pri_de':
        return finish(PriDe(prog, th, rep), rep)
    f = Fn(prog, th, name, rep)
    if name == 'cur_depth':
        verify_depth(f)
    elif name.startswith('cur_'):
        verify_cursor_new(f)
    elif name.startswith('ent_'):
        verify_entry(f)
    elif name == 'pri_ser':
        verify_pri_ser(f)
    else:
        verify_val(f)
    if not f.nok:
        rep.add(f.pr, f.subj, 'some path returns', 'refuted', 'vacuous')
    return f.eng


def finish(r, rep):
    r.verify()
    if r.unsup:
        rep.add(r.allprops(), r.subject, 'within reach of the verifier', 'unsupported', '; '.join(r.unsup))
    if not r.nok:
        rep.add(r.allprops(), r.subject, 'some path returns Ok', 'refuted', 'vacuous')
    return r.eng
