"""Contracts of the derive crate's own helper functions, checked against their MIR for every name,
prefix, rename and namespace map (the generated code is verified per corpus type; these functions
decide the names, flags and kinds that the generated code is built from).

An identifier is its text; raw identifiers are seen through unraw. Token streams are opaque."""
import z3
from values import *
from engine import Engine, State, short
import contracts as C
import fnspecs
import verify_ser as VS

F = 'yaserde_derive::common::field::YaSerdeField::'
A = 'yaserde_derive::common::attribute::YaSerdeAttribute::'
FF = '<yaserde_derive::common::field::Field as std::convert::From<&syn::%s>>::from'
AFROM = '<yaserde_derive::common::attribute::YaSerdeAttribute as std::convert::From<&std::vec::Vec<syn::Attribute>>>::from'
NAMES = {'C01', 'C02', 'C03', 'C07', 'C08'}
FLAGS = dict(is_attribute=('attribute', {'C04', 'C01'}), is_text_content=('text', {'C14', 'C01'}), is_flatten=('flatten', {'C09', 'C01'}),
             is_cdata=('cdata', {'C14', 'C01'}), is_skip_serializing=('skip_serializing', {'C06'}))
FUNCS = {
    'der_element_name': (A + 'xml_element_name', NAMES), 'der_root_prefix': (A + 'prefix_namespace', {'C07', 'C02'}),
    'der_label': (F + 'label', NAMES), 'der_plain_name': (F + 'renamed_label_without_namespace', NAMES), 'der_field_name': (F + 'renamed_label', NAMES | {'C04'}),
    'der_variant_name': ('yaserde_derive::ser::label::build_label_name', {'C08', 'C07', 'C01'}), 'der_namespace': (F + 'prefix_namespace', {'C07', 'C03'}),
    'der_default': (F + 'get_default_function', {'C06', 'C05'}), 'der_skip_if': (F + 'get_skip_serializing_if_function', {'C06'}),
    'der_kind': (FF % 'Path', {'C13', 'C03', 'C01'}), 'der_inner_kind': (FF % 'PathSegment', {'C05', 'C03', 'C01'}),
    'der_attributes': (AFROM, NAMES | {'C04', 'C06', 'C09', 'C14'}), 'der_field_new': (F + 'new', NAMES | {'C04', 'C06', 'C09', 'C14'})}
FUNCS.update({'der_' + k: (F + k, p) for k, (f, p) in FLAGS.items()})
ASSUMED = 'an identifier is its text (proc_macro2::Ident); syn gives the attributes, types and names as written; serde_tokenstream reads #[yaserde(...)] as documented'


def names():
    return list(FUNCS)


def props(name):
    return set(FUNCS[name][1])


def subject(name):
    return 'derive: ' + FUNCS[name][0].replace('yaserde_derive::', '')


class DeriveEngine(Engine):
    def is_strty(self, t):
        return t['s'] == 'proc_macro2::Ident' or Engine.is_strty(self, t)


def fname(f):
    return f.get('def') or f.get('decl') or ''


class Run(fnspecs.Fn):
    def __init__(self, prog, th, name, rep):
        self.prog, self.rep, self.name = prog, rep, name
        self.eng = DeriveEngine(prog, th)
        if FUNCS[name][0] not in prog.roots:
            raise Unsupported('no function ' + FUNCS[name][0])
        self.key = prog.roots[FUNCS[name][0]]
        self.L = prog.fn(self.key)['locals']
        self.st = State()
        self.subj = subject(name)
        self.pr = props(name)
        self.nok = 0
        self.eng.assumptions.add(ASSUMED)
        H = self.eng.hooks
        H += [(lambda f: fname(f).endswith('IdentExt>::unraw'), lambda e, s, c: [(s, self.unraw(e.strval(C.deref(e, s, c.args[0]))))]),
              (lambda f: f.get('decl') == 'std::string::ToString::to_string', self.h_to_string),
              (lambda f: fname(f).endswith('IdentFragmentAdapter::<T>::span') or short(fname(f)) in ('span', 'get_span', 'call_site'), self.h_span),
              (lambda f: fname(f) in ('proc_macro2::Ident::new', 'quote::__private::mk_ident'), lambda e, s, c: [(s, e.strval(C.deref(e, s, c.args[0])))]),
              (lambda f: 'BTreeMap' in fname(f), self.h_map),
              (lambda f: 'punctuated::Punctuated' in fname(f), self.h_punct)]

    def allargs(self, *want):
        """the function's parameter types are the expected ones"""
        n = self.prog.fn(self.key)['argc']
        got = [self.prog.T[l]['s'] for l in self.L[1:n + 1]]
        if len(got) != len(want) or not all(g.endswith(w) for g, w in zip(got, want)):
            raise Unsupported('signature %s' % got)

    def unraw(self, t):
        r = self.eng.th.func('unraw', Str, Str)(t)
        self.eng.th.keep.append(r)
        return r

    def opq(self, tyid, what, x):
        """the value an unspecified function gives for x"""
        return self.eng.mk(tyid, '%s[%s]' % (what, self.eng.canon(x)))

    def h_to_string(self, eng, st, c):
        v = C.deref(eng, st, c.args[0])
        if is_z3(v) and v.sort() == Str:
            return [(st, v)]
        return C.c_to_string(eng, st, c)

    def h_span(self, eng, st, c):
        return [(st, eng.mk(c.rty, eng.fresh('span')))]

    # -- the namespace map: at most one entry per prefix; the one for the prefix in question is singled out
    def h_map(self, eng, st, c):
        if not c.args:
            return [(st, Obj('Map', parts=(), key=None, has=False, val=None))]
        m = C.deref(eng, st, c.args[0])
        n = short(fname(c.f))
        if not isinstance(m, Obj) or m.kind != 'Map':
            raise Unsupported('map operation %s' % n)
        if n in ('iter', 'into_iter'):
            return [(st, Obj('It', parts=m.a['parts'], ref=False, ops=()))]
        if n in ('get', 'contains_key') and m.a['key'] is not None:
            k = eng.strval(C.deref(eng, st, c.args[1]))
            if eng.th.prove(st.pc, k == m.a['key']) == 'proved':
                outs = []
                for s, b in eng.branch(st, m.a['has']):
                    outs.append((s, b if n != 'get' else C.some(eng, c.rty, RefV(m.a['val'])) if b else C.none(eng, c.rty)))
                return outs
        raise Unsupported('map operation %s' % n)

    def mkmap(self, key):
        eng = self.eng
        parts, has, val = [], z3.Bool('declared'), z3.Const('uri', Str)
        for i in (0, 1):
            k, v = z3.Const('ns_prefix%d' % i, Str), z3.Const('ns_uri%d' % i, Str)
            if key is not None:
                eng.th.ax(k != key)
            parts.append(('s', Seq('namespaces%d' % i, None, Tup([RefV(k), RefV(v)]), 'free')))
        if key is None:
            # without a prefix to look for no entry is special, and none is to be found
            return Obj('Map', parts=(parts[0],), key=None, has=False, val=None)
        return Obj('Map', parts=(parts[0], ('o', has, Tup([RefV(key), RefV(val)])), parts[1]), key=key, has=has, val=val)

    def h_punct(self, eng, st, c):
        p = C.deref(eng, st, c.args[0])
        n = short(fname(c.f))
        if n in ('first', 'last'):
            b = z3.Bool('nonempty[%s]' % eng.canon(p))
            eng.th.keep.append(b)
            outs = []
            inner = eng.p.T[eng.p.T[c.rty]['args'][0]]['ty']
            for s, y in eng.branch(st, b):
                outs.append((s, C.some(eng, c.rty, RefV(self.opq(inner, n, p))) if y else C.none(eng, c.rty)))
            return outs
        if n == 'is_empty':
            b = z3.Bool('nonempty[%s]' % eng.canon(p))
            eng.th.keep.append(b)
            return [(st, z3.Not(b))]
        raise Unsupported('list operation ' + n)

    # -- building arguments
    def attrs(self, name, **given):
        """a YaSerdeAttribute with some fields set"""
        ty = self.attrty()
        fs = self.prog.T[ty]['variants'][0]['fields']
        return Adt(ty, 0, [given[f['name']] if f['name'] in given else self.eng.mk(f['ty'], '%s.%s' % (name, f['name'])) for f in fs])

    def adt(self, name):
        for i, t in self.prog.T.items():
            if t and t['k'] == 'adt' and (t['s'] == name or t['s'].endswith('::' + name)):
                return i
        raise Unsupported('no type ' + name)

    def attrty(self):
        return self.adt('YaSerdeAttribute')

    def attr_field(self, v, name):
        fs = [f['name'] for f in self.prog.T[v.ty]['variants'][0]['fields']]
        if name not in fs:
            raise Unsupported('no attribute setting ' + name)
        return v.fields[fs.index(name)]

    def opt(self, v):
        ty = self.adt('std::option::Option<std::string::String>')
        return C.none(self.eng, ty) if v is None else C.some(self.eng, ty, v)

    def field(self, ident, attrs):
        ty = self.adt('YaSerdeField')
        fs = self.prog.T[ty]['variants'][0]['fields']
        sy = [f for f in fs if f['name'] == 'syn_field']
        if len(fs) != 2 or not sy:
            raise Unsupported('YaSerdeField has other fields')
        sty = sy[0]['ty']
        sv = Adt(sty, 0, [C.some(self.eng, f['ty'], ident) if f['name'] == 'ident' and ident is not None else C.none(self.eng, f['ty']) if f['name'] == 'ident' else
                          self.eng.mk(f['ty'], 'syn.' + f['name']) for f in self.prog.T[sty]['variants'][0]['fields']])
        return Adt(ty, 0, [sv if f['name'] == 'syn_field' else attrs for f in fs])

    def go(self, *args):
        self.st = State()
        for o in self.run(list(args)):
            self.nok += 1
            yield o.st, o.value

    def text(self, s, v, parts, what):
        want = self.eng.cat(parts)
        got = self.eng.strval(v)
        self.ob(what, self.same(s, got, want), 'gives %s, specified %s' % (got, want), s)


STR = ('prefix', 'default_namespace')


def optcases(*names):
    import itertools
    return itertools.product(*[[None, z3.Const(n, Str)] for n in names])


def same_opt(st, a, b):
    """are the two optional texts equal: True, False or a condition"""
    if a is None or b is None:
        return a is b
    return a == b


def prefixed(f, s, prefix, default):
    """parts of the prefix of a name: nothing for no prefix or the default namespace's, else prefix and colon; -> [(state, parts)]"""
    if prefix is None:
        return [(s, [])]
    c = same_opt(s, prefix, default)
    colon = [prefix, f.eng.th.lit(':')]
    if c is False:
        return [(s, colon)]
    return [(s2, [] if b else colon) for s2, b in f.eng.branch(s, c)]


def verify(prog, th, name, rep):
    f = Run(prog, th, name, rep)
    eng = f.eng
    k = name[4:]
    ident = z3.Const('ident', Str)
    if k in FLAGS:
        f.allargs('YaSerdeField')
        a = f.attrs('a')
        for s, v in f.go(RefV(f.field(ident, a))):
            f.ob('is the %s setting' % FLAGS[k][0], f.same(s, v, f.attr_field(a, FLAGS[k][0])), repr(v), s)
    elif k == 'element_name':
        f.allargs('YaSerdeAttribute', 'proc_macro2::Ident')
        for ren, in optcases('rename'):
            for s, v in f.go(RefV(f.attrs('a', rename=f.opt(ren))), RefV(ident)):
                f.text(s, v, [ren if ren is not None else f.unraw(ident)], 'the name is the rename, else the identifier without r#')
    elif k == 'plain_name':
        f.allargs('YaSerdeField')
        for ren, in optcases('rename'):
            for s, v in f.go(RefV(f.field(ident, f.attrs('a', rename=f.opt(ren))))):
                f.text(s, v, [ren if ren is not None else f.unraw(ident)], 'the name is the rename, else the identifier without r#')
    elif k == 'label':
        f.allargs('YaSerdeField')
        for s, v in f.go(RefV(f.field(ident, f.attrs('a')))):
            f.ob('the label is the identifier of the field', f.same(s, v, ('some', ident)), repr(v), s)
    elif k == 'root_prefix':
        f.allargs('YaSerdeAttribute')
        for p, d in optcases('prefix', 'default'):
            for s, v in f.go(RefV(f.attrs('a', prefix=f.opt(p), default_namespace=f.opt(d)))):
                for s2, parts in prefixed(f, s, p, d):
                    f.text(s2, v, parts, 'prefix and colon, nothing for the default namespace')
    elif k == 'field_name':
        f.allargs('YaSerdeField', 'YaSerdeAttribute')
        for p, d, ren in optcases('prefix', 'default', 'rename'):
            a = f.attrs('a', prefix=f.opt(p), rename=f.opt(ren))
            for s, v in f.go(RefV(f.field(ident, a)), RefV(f.attrs('root', default_namespace=f.opt(d)))):
                for s2, parts in prefixed(f, s, p, d):
                    f.text(s2, v, parts + [ren if ren is not None else f.unraw(ident)], 'prefix and colon (nothing for the default namespace), then the name')
    elif k == 'variant_name':
        f.allargs('proc_macro2::Ident', 'YaSerdeAttribute', 'Option<std::string::String>')
        for p, d, ren in optcases('prefix', 'default', 'rename'):
            for s, v in f.go(RefV(ident), RefV(f.attrs('a', prefix=f.opt(p), rename=f.opt(ren))), RefV(f.opt(d))):
                for s2, parts in prefixed(f, s, p, d):
                    f.text(s2, v, parts + [ren if ren is not None else f.unraw(ident)], 'prefix and colon (nothing for the default namespace), then the name')
    elif k == 'namespace':
        f.allargs('YaSerdeField', 'YaSerdeAttribute')
        for p, in optcases('prefix'):
            m = f.mkmap(p)
            for s, v in f.go(RefV(f.field(ident, f.attrs('a', prefix=f.opt(p)))), RefV(f.attrs('root', namespaces=m))):
                if p is None:
                    f.text(s, v, [], 'without a prefix there is no namespace')
                    continue
                for s2, b in eng.branch(s, m.a['has']):
                    f.text(s2, v, [m.a['val']] if b else [], 'the namespace declared for the prefix, nothing when there is none')
    elif k in ('default', 'skip_if'):
        f.allargs('YaSerdeField')
        setting = 'default' if k == 'default' else 'skip_serializing_if'
        for x, in optcases(setting):
            for s, v in f.go(RefV(f.field(ident, f.attrs('a', **{setting: f.opt(x)})))):
                f.ob('is the function named by %s, if any' % setting, f.same(s, v, ('some', x) if x is not None else None), repr(v), s)
    elif k == 'kind':
        kind(f)
    elif k == 'inner_kind':
        inner_kind(f)
    elif k == 'attributes':
        attributes(f)
    elif k == 'field_new':
        f.allargs('syn::Field')
        eng.hooks[:0] = [(lambda x: fname(x) == AFROM, lambda e, s, c: [(s, f.opq(c.rty, 'settings', C.deref(e, s, c.args[0])))])]
        x = eng.mk(f.L[1], 'field')
        ats = [i for i, g in enumerate(prog.T[f.L[1]]['variants'][0]['fields']) if g['name'] == 'attrs'][0]
        for s, v in f.go(x):
            fs = [g['name'] for g in prog.T[v.ty]['variants'][0]['fields']]
            f.ob('keeps the field as written', eng.canon(v.fields[fs.index('syn_field')]) == eng.canon(x), repr(v), s)
            f.ob('takes its settings from the attributes of the field', eng.canon(v.fields[fs.index('attributes')]) == eng.canon(f.opq(f.attrty(), 'settings', eng.fld(x, 0, ats))), repr(v), s)
    if not f.nok:
        rep.add(f.pr, f.subj, 'some path returns', 'refuted', 'vacuous')
    return eng


KINDS = {'String': 'FieldString', 'bool': 'FieldBool', 'i8': 'FieldI8', 'u8': 'FieldU8', 'i16': 'FieldI16', 'u16': 'FieldU16', 'i32': 'FieldI32', 'u32': 'FieldU32',
         'i64': 'FieldI64', 'u64': 'FieldU64', 'f32': 'FieldF32', 'f64': 'FieldF64', 'Option': 'FieldOption', 'Vec': 'FieldVec'}


def fieldno(prog, ty, name):
    for i, g in enumerate(prog.T[ty]['variants'][0]['fields']):
        if g['name'] == name:
            return i
    raise Unsupported('no field ' + name)


def kind(f):
    eng, prog = f.eng, f.prog
    f.allargs('syn::Path')
    eng.hooks[:0] = [(lambda x: fname(x) == FF % 'PathSegment', lambda e, s, c: [(s, f.opq(c.rty, 'kind_of_argument', C.deref(e, s, c.args[0])))])]
    pty = prog.T[f.L[1]]['ty']
    path = eng.mk(pty, 'path')
    fty = f.L[0]
    vs = {v['name'].split('::')[-1]: i for i, v in enumerate(prog.T[fty]['variants'])}
    segs = eng.fld(path, 0, fieldno(prog, pty, 'segments'))
    sty = f.adt('syn::PathSegment')
    seg = f.opq(sty, 'last', segs)
    name = eng.strval(eng.fld(seg, 0, fieldno(prog, sty, 'ident')))
    nonempty = z3.Bool('nonempty[%s]' % eng.canon(segs))
    for s, v in f.go(RefV(path)):
        for s2, b in eng.branch(s, nonempty):
            work = [(s2, None)]
            if b:
                work, cur = [], [s2]
                for n in KINDS:
                    nxt = []
                    for x in cur:
                        for x2, y in eng.branch(x, name == eng.th.lit(n)):
                            (work.append((x2, n)) if y else nxt.append(x2))
                    cur = nxt
                work += [(x, None) for x in cur]
            for x, n in work:
                w = KINDS.get(n, 'FieldStruct')
                what = 'a %s is a %s' % (n, w) if n else 'any other type is a nested value'
                if not f.ob(what, eng.disc_of(v) == vs[w], repr(v), x):
                    continue
                if n in ('Option', 'Vec'):
                    f.ob('of the kind of its argument', eng.canon(C.deref(eng, x, v.fields[0])) == eng.canon(f.opq(fty, 'kind_of_argument', seg)), repr(v), x)
                elif n is None:
                    f.ob('under its own path', eng.canon(C.deref(eng, x, v.fields[0])) == eng.canon(path), repr(v), x)


def inner_kind(f):
    """returns only for one type argument that is a path, plain or in invisible delimiters; its kind is the path's"""
    eng, prog = f.eng, f.prog
    f.allargs('syn::PathSegment')
    seen = []

    def h(e, s, c):
        p = C.deref(e, s, c.args[0])
        return [(s, f.opq(c.rty, 'kind_of_path', p))]
    eng.hooks[:0] = [(lambda x: fname(x) == FF % 'Path', h), (lambda x: fname(x).endswith('to_tokens') or fname(x).endswith('TokenStream::new'), lambda e, s, c: [(s, e.mk(c.rty, e.fresh('tokens')))])]
    sty = prog.T[f.L[1]]['ty']
    seg = eng.mk(sty, 'segment')
    args = eng.fld(seg, 0, fieldno(prog, sty, 'arguments'))
    T = prog.T

    def var(v, name):
        return [i for i, x in enumerate(T[v.ty]['variants']) if x['name'].split('::')[-1] == name][0]
    f.st = State()
    eng.push(f.st, f.key, [RefV(seg)], None, None)
    for o in eng.run_all(f.st):
        if o.kind == 'panic':
            continue
        f.nok += 1
        s, v = o.st, o.value
        ab = var(args, 'AngleBracketed')
        ok = eng.th.prove(s.pc, eng.disc_of(args) == ab) == 'proved'
        if not f.ob('only a type with arguments in angle brackets', ok, '', s):
            continue
        ga = eng.fld(args, ab, 0)
        first = None
        lst = eng.fld(ga, 0, fieldno(prog, ga.ty, 'args'))
        gty = f.adt('syn::GenericArgument')
        first = f.opq(gty, 'first', lst)
        ti = var(first, 'Type')
        if not f.ob('only for a type argument', eng.th.prove(s.pc, eng.disc_of(first) == ti) == 'proved', '', s):
            continue
        t = C.deref(eng, s, eng.fld(first, ti, 0))
        gi, pi = var(t, 'Group'), var(t, 'Path')
        if eng.th.prove(s.pc, eng.disc_of(t) == gi) == 'proved':
            g = eng.fld(t, gi, 0)
            t = C.deref(eng, s, eng.fld(g, 0, fieldno(prog, g.ty, 'elem')))
        if not f.ob('only for a path', eng.th.prove(s.pc, eng.disc_of(t) == pi) == 'proved', '', s):
            continue
        tp = eng.fld(t, pi, 0)
        path = eng.fld(tp, 0, fieldno(prog, tp.ty, 'path'))
        f.ob('gives the kind of the first argument', eng.canon(v) == eng.canon(f.opq(f.L[0], 'kind_of_path', path)), repr(v), s)


def attributes(f):
    """the settings are those of the first #[yaserde] among the attributes, wherever it stands; none gives the defaults"""
    eng, prog = f.eng, f.prog
    f.allargs('Vec<syn::Attribute>')
    aty = f.adt('syn::Attribute')

    def is_ya(a):
        b = z3.Bool('is_yaserde[%s]' % eng.canon(a))
        eng.th.keep.append(b)
        return b

    def try_from(e, s, c):
        a = C.deref(e, s, c.args[0])
        outs = []
        for s2, b in e.branch(s, is_ya(a)):
            outs.append((s2, C.ok(e, c.rty, f.opq(f.attrty(), 'settings', a)) if b else C.err(e, c.rty, C.errval(e, c.rty, 'not_an_attribute'))))
        return outs
    eng.hooks[:0] = [(lambda x: 'YaSerdeAttribute as std::convert::TryFrom<' in fname(x), try_from)]
    for found in (True, False):
        other = Seq('other_attributes', aty, eng.mk(aty, 'other'), 'free')
        eng.th.ax(z3.Not(is_ya(other.elem)))
        parts = [('s', other)]
        one = eng.mk(aty, 'the_one')
        if found:
            eng.th.ax(is_ya(one))
            parts += [('e', one), ('s', Seq('later_attributes', aty, eng.mk(aty, 'later'), 'free'))]
        for s, v in f.go(RefV(Vec(parts))):
            if found:
                f.ob('the settings of #[yaserde], wherever it stands', eng.canon(v) == eng.canon(f.opq(f.attrty(), 'settings', one)), repr(v), s)
                continue
            for g, x in zip(prog.T[v.ty]['variants'][0]['fields'], v.fields) if isinstance(v, Adt) else []:
                t = prog.T[g['ty']]
                if t['k'] == 'bool':
                    f.ob('without #[yaserde] %s is off' % g['name'], f.same(s, x, False), repr(x), s)
                elif t['s'].startswith('std::option::Option<'):
                    f.ob('without #[yaserde] there is no %s' % g['name'], f.same(s, x, None), repr(x), s)
