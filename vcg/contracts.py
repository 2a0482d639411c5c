"""Contracts of the functions the verified code calls but does not define: the standard library,
xml-rs and log. Each is an assumption of every proof and is listed in the evidence when used."""
import re
import z3
from values import *
from engine import Suspend, int_range, short

EXACT = {}
PATTERNS = []


def contract(*names):
    def deco(h):
        for n in names:
            if n.startswith('~'):
                PATTERNS.append((re.compile(n[1:]), h))
            else:
                EXACT[n] = h
        return h
    return deco


_cache = {}


def lookup(f):
    k = (f.get('def'), f.get('decl'))
    if k in _cache:
        return _cache[k]
    h = None
    for n in k:
        if n in EXACT:
            h = EXACT[n]
            break
    if h is None:
        for n in k:
            if n is None:
                continue
            for rx, hh in PATTERNS:
                if rx.search(n):
                    h = hh
                    break
            if h is not None:
                break
    _cache[k] = h
    return h


# -- helpers ---------------------------------------------------------------------------------------
def peel(v):
    while isinstance(v, RefV):
        v = v.v
    return v


def deref(eng, st, v):
    while True:
        if isinstance(v, RefV):
            v = v.v
        elif isinstance(v, Ptr):
            v = eng.load(st, v.cell, v.path)
        else:
            return v


def ty(eng, i):
    return eng.p.T[i]


def variant(eng, tyid, name, fields=()):
    t = eng.p.T[tyid]
    for i, v in enumerate(t['variants']):
        if v['name'].split('::')[-1] == name:
            return Adt(tyid, i, fields)
    raise Unsupported('no variant %s' % name)


def some(eng, tyid, v):
    return variant(eng, tyid, 'Some', [v])


def none(eng, tyid):
    return variant(eng, tyid, 'None')


def ok(eng, tyid, v=UNIT):
    return variant(eng, tyid, 'Ok', [v])


def err(eng, tyid, v):
    return variant(eng, tyid, 'Err', [v])


def errval(eng, tyid, name=None):
    """A fresh error payload for a Result type."""
    et = eng.p.T[tyid]['args'][1]
    return eng.mk(et, name or eng.fresh('err'))


def kind_of(eng, tyid):
    t = eng.p.T[tyid]
    while t['k'] == 'ref':
        t = eng.p.T[t['ty']]
    if eng.is_strty(t):
        return 'str'
    return t['s']


SCALARS = ('bool', 'char', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64', 'usize', 'isize', 'i128', 'u128')


def ksort(k):
    return {'bool': z3.BoolSort(), 'f32': F32, 'f64': F64}.get(k, z3.IntSort())


def krange(k):
    if k in ('usize', 'isize'):
        b = 64
    else:
        b = int(k[1:])
    return (-(1 << (b - 1)), (1 << (b - 1)) - 1) if k[0] == 'i' else (0, (1 << b) - 1)


# -- theory of Display and FromStr -----------------------------------------------------------------
def display(eng, k, v):
    v = peel(v)
    th = eng.th
    if k == 'str':
        return eng.strval(v)
    if k == 'bool':
        if isinstance(v, bool):
            return th.lit('true' if v else 'false')
        t = z3.If(v, th.lit('true'), th.lit('false'))
        th.keep.append(t)
        return t
    if k == 'char':
        if isinstance(v, int):
            return th.lit(chr(v))
        t = th.func('disp_char', z3.IntSort(), Str)(v)
        th.keep.append(t)
        return t
    if k in SCALARS:
        if isinstance(v, int) and not k.startswith('f'):
            return th.lit(str(v))
        t = th.func('disp_' + k, ksort(k), Str)(v)
        if t.get_id() not in eng.cdisp:
            eng.cdisp[t.get_id()] = t
            if not k.startswith('f'):
                th.ax(pok(eng, k, t))
                th.ax(pval(eng, k, t) == v)
            else:
                th.ax(pok(eng, k, t))
                th.ax(pval(eng, k, t) == v)
            th.ax(t != th.lit(''))
        return t
    return None


def pok(eng, k, s):
    """the text parses as a value of kind k"""
    th = eng.th
    s = eng.strval(s)
    if k == 'str':
        return True
    if k == 'bool':
        return OR(eng.eq(s, 'true'), eng.eq(s, 'false'))
    lv = th.litval(s)
    if lv is not None and not k.startswith('f') and k != 'char':
        return pyparse(k, lv) is not None
    t = th.func('pok_' + k, Str, z3.BoolSort())(s)
    key = ('pok', t.get_id())
    if key not in eng.cdisp:
        eng.cdisp[key] = t
        e = th.func('pok_' + k, Str, z3.BoolSort())(th.lit(''))
        if ('pok', e.get_id()) not in eng.cdisp:
            eng.cdisp[('pok', e.get_id())] = e
            th.ax(z3.Not(e))
    return t


def pyparse(k, s):
    m = re.match(r'^[+-]?[0-9]+$', s)
    if not m:
        return None
    if s[0] == '-' and k[0] == 'u' and int(s) != 0:
        return None
    if s[0] == '-' and k[0] == 'u':
        return None
    lo, hi = krange(k)
    v = int(s)
    return v if lo <= v <= hi else None


def pval(eng, k, s):
    th = eng.th
    s = eng.strval(s)
    if k == 'str':
        return s
    if k == 'bool':
        r = eng.eq(s, 'true')
        return r
    lv = th.litval(s)
    if lv is not None and not k.startswith('f') and k != 'char':
        v = pyparse(k, lv)
        if v is not None:
            return v
    t = th.func('pval_' + k, Str, ksort(k))(s)
    key = ('pval', t.get_id())
    if key not in eng.cdisp:
        eng.cdisp[key] = t
        if not k.startswith('f'):
            lo, hi = krange(k) if k != 'char' else (0, 0x10ffff)
            th.ax(z3.And(t >= lo, t <= hi))
    return t


# -- panics ----------------------------------------------------------------------------------------
@contract('~^core::panicking::', '~^std::rt::begin_panic', '~^std::rt::panic', '~^core::panic', '~unwrap_failed', '~expect_failed')
def c_panic(eng, st, c):
    msg = ''
    for a in c.args:
        a = peel(a)
        if is_z3(a) and eng.th.litval(a) is not None:
            msg = eng.th.litval(a)
    return [('panic', st, 'panic %s %s' % (short(c.f['decl']), msg))]


# -- log -------------------------------------------------------------------------------------------
@contract('~log::max_level$')
def c_maxlevel(eng, st, c):
    eng.assumptions.add('logging is off (log::max_level() below every level used)')
    return [(st, z3.Const('log_max_level', Val))]


@contract('std::cmp::PartialOrd::le', 'std::cmp::PartialOrd::ge', 'std::cmp::PartialOrd::lt', 'std::cmp::PartialOrd::gt')
def c_cmp(eng, st, c):
    ts = [eng.p.T[a]['s'] for a in c.f['declargs'] if isinstance(a, int)]
    if any('log::' in t or 'Level' in t for t in ts):
        return [(st, False)]
    a, b = deref(eng, st, c.args[0]), deref(eng, st, c.args[1])
    if (isinstance(a, int) or (is_z3(a) and z3.is_int(a))):
        op = short(c.f['decl'])
        r = {'le': lambda: a <= b, 'ge': lambda: a >= b, 'lt': lambda: a < b, 'gt': lambda: a > b}[op]()
        return [(st, r)]
    raise Unsupported('comparison of %s' % ts)


# -- clone, eq, conversions ---------------------------------------------------------------------------
@contract('std::clone::Clone::clone', '~ as std::clone::Clone>::clone$', 'std::borrow::ToOwned::to_owned',
          '~::Attribute::<.*>::to_owned$', '~OwnedAttribute::borrow$', '~OwnedName::borrow$', '~Name::<.*>::to_owned$',
          '~^std::option::Option::<&T>::cloned$', '~^std::option::Option::<&T>::copied$',
          '~^std::option::Option::<&mut T>::cloned$')
def c_clone(eng, st, c):
    v = c.args[0]
    n = c.f['decl']
    if n.endswith('::cloned') or n.endswith('::copied'):
        outs = []
        for s, i in eng.cases(st, v, None):
            a = v if isinstance(v, Adt) else eng.expand(v, i)
            if eng.p.T[v.ty]['variants'][i]['fields']:
                outs.append((s, some(eng, c.rty, deref(eng, s, a.fields[0]))))
            else:
                outs.append((s, none(eng, c.rty)))
        return outs
    if isinstance(v, RefV):
        v = v.v
    elif isinstance(v, Ptr):
        v = eng.load(st, v.cell, v.path)
    # &T cloned through a reference to a reference gives a reference
    rt = eng.p.T[c.rty]
    if rt['k'] != 'ref':
        v = deref(eng, st, v)
        if isinstance(v, Arr) and rt['s'].startswith('std::vec::Vec'):
            v = Vec([('e', x) for x in v.items])
    return [(st, v)]


@contract('std::borrow::Cow::<\'_, B>::into_owned', '~^std::borrow::Cow::<.*>::(into_owned|to_mut)$', '~^std::slice::<impl \\[T\\]>::to_vec$', '~slice::<impl \\[T\\]>::to_vec$',
          '~slice::<impl \\[T\\]>::into_vec$', '~^std::str::<impl str>::to_owned$', '~str::<impl str>::into_string$')
def c_into_owned(eng, st, c):
    v = deref(eng, st, c.args[0])
    if isinstance(v, Arr):
        v = Vec([('e', x) for x in v.items])
    return [(st, v)]


@contract('~boxed::box_assume_init_into_vec_unsafe$', '~boxed::Box::<.*>::(new|new_uninit|write|assume_init)$', '~alloc::boxed::')
def c_box(eng, st, c):
    v = c.args[-1] if c.args else UNDEF
    if isinstance(v, Ptr) and v.cell[0] == 'ubox' and 'assume_init' in c.f['decl']:
        v = eng.load(st, v.cell, (('f', None, 1),))
        v = v.fields[0] if isinstance(v, Tup) else v
    if isinstance(v, Arr) and eng.p.T[c.rty]['s'].startswith('std::vec::Vec'):
        v = Vec([('e', x) for x in v.items])
    if not c.args:
        cell = ('ubox', eng.fresh('b'))
        st.store[cell] = Tup([UNDEF, Tup([UNDEF])])
        return [(st, Ptr(cell))]
    return [(st, v)]


@contract('std::cmp::PartialEq::eq', 'std::cmp::PartialEq::ne', '~ as std::cmp::PartialEq.*>::(eq|ne)$', '~traits::<impl std::cmp::PartialEq for str>::(eq|ne)$')
def c_eq(eng, st, c):
    a, b = deref(eng, st, c.args[0]), deref(eng, st, c.args[1])
    if isinstance(a, Arr) and isinstance(b, Vec):
        a = Vec([('e', x) for x in a.items])
    if isinstance(b, Arr) and isinstance(a, Vec):
        b = Vec([('e', x) for x in b.items])
    r = eng.eq(norm(eng, st, a), norm(eng, st, b))
    if short(c.f['decl']) == 'ne':
        r = NOT(r)
    return [(st, r)]


def norm(eng, st, v):
    if isinstance(v, Obj) and v.kind == 'QName':
        return v.a['s']
    return v


@contract('std::convert::AsRef::as_ref', '~ as std::convert::AsRef<.*>>::as_ref$', 'std::ops::Deref::deref', '~ as std::ops::Deref>::deref$',
          'std::string::String::as_str', 'std::borrow::Borrow::borrow', '~^std::vec::Vec::<.*>::as_slice$', '~str::<impl str>::as_bytes$', '~^std::string::String::as_bytes$',
          '~^std::string::String::into_bytes$', '~^std::string::String::into_boxed_str$')
def c_ref(eng, st, c):
    v = c.args[0]
    if isinstance(v, Ptr):
        v = RefV(eng.load(st, v.cell, v.path))
    w = peel(v)
    if isinstance(w, Ptr):
        w = deref(eng, st, w)
    if isinstance(w, Obj) and w.kind == 'QName':
        w = w.a['s']
    if eng.p.T[c.rty]['k'] == 'ref':
        return [(st, RefV(w))]
    return [(st, w)]


@contract('std::ops::DerefMut::deref_mut', '~ as std::ops::DerefMut>::deref_mut$', '~^std::vec::Vec::<.*>::as_mut_slice$', 'std::convert::AsMut::as_mut', 'std::borrow::BorrowMut::borrow_mut')
def c_refmut(eng, st, c):
    return [(st, c.args[0])]


@contract('std::convert::From::from', 'std::convert::Into::into', '~ as std::convert::From<.*>>::from$', '~ as std::convert::Into<.*>>::into$')
def c_from(eng, st, c):
    v = c.args[0]
    rt = eng.p.T[c.rty]
    if eng.is_strty(rt):
        return [(st, eng.strval(deref(eng, st, v)))]
    if rt['s'].startswith('yaserde::xml::writer::XmlEvent') or rt['name' if 'name' in rt else 's'].endswith('writer::XmlEvent'):
        return [(st, to_wev(eng, st, v))]
    if rt.get('name', '').endswith('name::Name'):
        return [(st, qname(eng, st, v))]
    if rt.get('name', '').endswith('name::OwnedName'):
        return [(st, qname(eng, st, v))]
    at = c.argtys[0] if c.argtys else None
    if at == c.rty:
        return [(st, v)]
    if eng.boxty(rt):
        return [(st, deref(eng, st, v) if isinstance(v, RefV) else v)]
    if rt['s'].startswith('std::option::Option<') and at == rt['args'][0]:
        return [(st, some(eng, c.rty, v))]
    # an error conversion of the `?` operator: user-visible code lives in this body
    if c.f.get('key') and eng.p.fns.get(c.f['key']):
        eng.push(st, c.f['key'], c.args, eng.dest(st, c.fr, c.t), c.t['t'])
        return [(st, None)]
    if at is not None and eng.p.T[at]['k'] == 'int' and rt['k'] == 'int':
        return [(st, v)]
    raise Unsupported('conversion to %s' % rt['s'])


# -- strings ------------------------------------------------------------------------------------------
@contract('~^std::string::String::new$', '~<std::string::String as std::default::Default>::default', '~^std::string::String::with_capacity$')
def c_strnew(eng, st, c):
    return [(st, eng.th.lit(''))]


@contract('std::string::ToString::to_string', '~ as std::string::ToString>::to_string$', '~SpecToString')
def c_to_string(eng, st, c):
    a = c.f['declargs'][0]
    return show_states(eng, st, a, deref(eng, st, c.args[0]))


def show_states(eng, st, tyid, v):
    """-> list of (state, text): what Display writes for a value of the type"""
    k = kind_of(eng, tyid)
    if k in SCALARS or k == 'str':
        return [(st, disp_or_fresh(eng, k, v))]
    if k == 'std::fmt::Arguments' or k.startswith('std::fmt::Arguments<'):
        return [(st, v.a['s'])]
    idx = getattr(eng.p, 'display_impls', None)
    if idx is None:
        idx = {}
        for key, f in eng.p.fns.items():
            m = f and f.get('blocks') and re.match(r'^<(.*) as std::fmt::Display>::fmt$', f.get('name') or '')
            if m:
                idx[m.group(1)] = key
        eng.p.display_impls = idx = {k2: v2 for k2, v2 in idx.items() if k2.startswith('harness::')}
        idx.update({k2[len('harness::'):]: v2 for k2, v2 in idx.items()})
    key = idx.get(k)
    if key is None:
        return [(st, disp_or_fresh(eng, k, v))]
    st.nfid += 1
    cell = (st.nfid, 'fmt')
    st.store[cell] = Obj('Fmt', s=eng.th.lit(''), mem=True)
    outs = []
    for s, r in eng.call_sync(st, FnV({'decl': '$display', 'def': None, 'key': key, 'name': None}), [RefV(v), Ptr(cell)]):
        outs.append((s, s.store[cell].a['s']))
    return outs


def disp_or_fresh(eng, k, v):
    try:
        d = display(eng, k, v)
    except Unsupported:
        d = None
    if d is None:
        d = z3.Const('disp[%s]' % eng.canon(v), Str)
        eng.th.keep.append(d)
    return d


@contract('~^std::string::String::push_str$', '~^std::string::String::push$')
def c_push_str(eng, st, c):
    p = c.args[0]
    x = c.args[1]
    if isinstance(x, int):
        x = eng.th.lit(chr(x))
    elif is_z3(x) and z3.is_int(x):
        x = display(eng, 'char', x)
    old = eng.load(st, p.cell, p.path)
    eng.save(st, p.cell, p.path, eng.cat([old, deref(eng, st, x)]))
    return [(st, UNIT)]


@contract('~^<std::string::String as std::ops::Add<&str>>::add$', 'std::ops::Add::add')
def c_add(eng, st, c):
    if eng.is_strty(eng.p.T[c.rty]):
        return [(st, eng.cat([c.args[0], c.args[1]]))]
    raise Unsupported('add')


@contract('~^<std::string::String as std::ops::AddAssign<&str>>::add_assign$')
def c_addassign(eng, st, c):
    return c_push_str(eng, st, c)


@contract('~::is_empty$')
def c_is_empty(eng, st, c):
    v = deref(eng, st, c.args[0])
    if is_z3(v) and v.sort() == Str:
        return [(st, eng.eq(v, ''))]
    if isinstance(v, Vec):
        return [(st, vec_empty(eng, v))]
    if isinstance(v, Arr):
        return [(st, not v.items)]
    if isinstance(v, Obj) and v.kind == 'NS':
        if not v.a['parts']:
            return [(st, True)]
        if any(p[0] == 'e' for p in v.a['parts']):
            return [(st, False)]
        return [(st, z3.Bool('nsempty[%s]' % eng.canon(v)))]
    raise Unsupported('is_empty of %r' % (v,))


def vec_empty(eng, v):
    if any(p[0] == 'e' for p in v.parts):
        return False
    return AND(*[z3.Bool('empty[%s]' % (p[1].name if p[0] == 's' else eng.canon_part(p))) for p in v.parts])


@contract('~^(std::vec::Vec::<.*>|core::slice::<impl \\[T\\]>|std::string::String|core::str::<impl str>|std::slice::<impl \\[T\\]>)::len$')
def c_len(eng, st, c):
    v = deref(eng, st, c.args[0])
    if isinstance(v, (Vec, Arr)):
        return [(st, eng.veclen(v))]
    lv = eng.th.litval(v)
    if lv is not None:
        return [(st, len(lv.encode()))]
    t = eng.th.func('strlen', Str, z3.IntSort())(v)
    eng.th.ax(z3.And(t >= 0, (t == 0) == (v == eng.th.lit(''))))
    return [(st, t)]


def with_table(name):
    """str methods evaluated on literals, uninterpreted otherwise"""
    def h(eng, st, c):
        v = eng.strval(deref(eng, st, c.args[0]))
        lv = eng.th.litval(v)
        rt = eng.p.T[c.rty]
        fn = {'trim': str.strip, 'trim_start': str.lstrip, 'trim_end': str.rstrip, 'to_lowercase': str.lower, 'to_uppercase': str.upper,
              'to_ascii_lowercase': str.lower, 'to_ascii_uppercase': str.upper}.get(name)
        if lv is not None and fn is not None:
            r = eng.th.lit(fn(lv))
        else:
            r = eng.th.func('str_' + name, Str, Str)(v)
            eng.th.keep.append(r)
        return [(st, RefV(r) if rt['k'] == 'ref' else r)]
    return h


for _n in ('trim', 'trim_start', 'trim_end', 'to_lowercase', 'to_uppercase', 'to_ascii_lowercase', 'to_ascii_uppercase'):
    PATTERNS.append((re.compile('str::<impl str>::%s$' % _n), with_table(_n)))


@contract('~str::<impl str>::(starts_with|ends_with|contains|eq_ignore_ascii_case)$')
def c_strpred(eng, st, c):
    n = short(c.f['decl'])
    a = eng.strval(deref(eng, st, c.args[0]))
    x = deref(eng, st, c.args[1])
    if isinstance(x, int):
        x = eng.th.lit(chr(x))
    b = eng.strval(x)
    la, lb = eng.th.litval(a), eng.th.litval(b)
    if la is not None and lb is not None:
        r = {'starts_with': la.startswith(lb), 'ends_with': la.endswith(lb), 'contains': lb in la,
             'eq_ignore_ascii_case': la.lower() == lb.lower()}[n]
        return [(st, r)]
    r = eng.th.func('str_' + n, Str, Str, z3.BoolSort())(a, b)
    eng.th.keep.append(r)
    if n in ('eq_ignore_ascii_case', 'starts_with', 'ends_with', 'contains'):
        eng.th.ax(z3.Implies(a == b, r))
    return [(st, r)]


@contract('~str::<impl str>::split_whitespace$')
def c_split(eng, st, c):
    v = eng.strval(deref(eng, st, c.args[0]))
    return [(st, Obj('It', parts=(('s', split_seq(eng, v)),), ref=True, ops=()))]


def split_seq(eng, v):
    nm = 'split[%s]' % eng.canon(v)
    e = z3.Const(nm + '.$', Str)
    if nm not in eng.symcache:
        eng.symcache[nm] = e
        eng.th.ax(e != eng.th.lit(''))
    return Seq(nm, None, e, 'split')


@contract('~slice::<impl \\[T\\]>::(join|concat)$', '~slice::Join')
def c_join(eng, st, c):
    v = deref(eng, st, c.args[0])
    sep = eng.strval(deref(eng, st, c.args[1])) if len(c.args) > 1 else eng.th.lit('')
    return [(st, join_term(eng, v, sep))]


def join_term(eng, v, sep):
    if isinstance(v, Arr):
        v = Vec([('e', x) for x in v.items])
    if all(p[0] == 'e' for p in v.parts):
        parts = []
        for i, p in enumerate(v.parts):
            if i:
                parts.append(sep)
            parts.append(peel(p[1]))
        return eng.cat(parts)
    from foreach import normF
    v = Vec([normF(eng, p) for p in v.parts])
    t = z3.Const('join[%s|%s]' % (eng.canon(v), eng.canon(sep)), Str)
    eng.th.keep.append(t)
    return t


@contract('~str::FromStr::from_str$', '~str::FromStr>::from_str$', '~<impl str>::parse$', '~<impl std::str::FromStr for .*>::from_str$')
def c_from_str(eng, st, c):
    s = eng.strval(deref(eng, st, c.args[0]))
    okty = eng.p.T[c.rty]['args'][0]
    k = kind_of(eng, okty)
    if k not in SCALARS and k != 'str':
        if c.f.get('key') and eng.p.fns.get(c.f['key']) and eng.p.fns[c.f['key']].get('blocks'):
            eng.push(st, c.f['key'], c.args, eng.dest(st, c.fr, c.t), c.t['t'])
            return [(st, None)]
        raise Unsupported('from_str of %s' % k)
    if k == 'str':
        return [(st, ok(eng, c.rty, s))]
    outs = []
    for s2, b in eng.branch(st, pok(eng, k, s)):
        if b:
            outs.append((s2, ok(eng, c.rty, pval(eng, k, s))))
        else:
            outs.append((s2, err(eng, c.rty, errval(eng, c.rty, 'parse_err_%s' % k))))
    return outs


@contract('~^std::str::from_utf8$', '~^core::str::.*from_utf8$')
def c_from_utf8(eng, st, c):
    v = deref(eng, st, c.args[0])
    return utf8(eng, st, c, v, ref=True)


@contract('~^std::string::String::from_utf8$')
def c_string_from_utf8(eng, st, c):
    return utf8(eng, st, c, deref(eng, st, c.args[0]), ref=False)


def utf8(eng, st, c, v, ref):
    if is_z3(v) and v.sort() == Str:
        r = v
    else:
        eng.assumptions.add('the bytes an EventWriter produced are valid UTF-8')
        r = z3.Const('text[%s]' % eng.canon(v), Str)
        eng.th.keep.append(r)
        eng.texts = getattr(eng, 'texts', {})
        eng.texts[r.get_id()] = v
    return [(st, ok(eng, c.rty, RefV(r) if ref else r))]


# -- formatting ----------------------------------------------------------------------------------------
@contract('~fmt::rt::Argument::<.*>::new_(display|debug|lower_hex|upper_hex)$')
def c_arg(eng, st, c):
    n = short(c.f['decl'])[4:]
    a = [x for x in c.f['declargs'] if isinstance(x, int)][-1]
    return [(st, Obj('Arg', how=n, ty=a, v=deref(eng, st, c.args[0])))]


HEX2 = (('fl', (32, 0, 0, 105)), ('w', (2, 0)))     # the format specification of {:02X}


def hexdisp(eng, v):
    """what {:02X} writes for an unsigned number"""
    v = peel(v)
    th = eng.th
    t = th.func('hex2', z3.IntSort(), Str)(v)
    if t.get_id() not in eng.cdisp:
        eng.cdisp[t.get_id()] = t
        th.ax(hexok(eng, t))
        th.ax(hexval(eng, t) == v)
        th.ax(t != th.lit(''))
    return t


def hexok(eng, s):
    s = eng.strval(s)
    t = eng.th.func('hexok', Str, z3.BoolSort())(s)
    if ('hexok', t.get_id()) not in eng.cdisp:
        eng.cdisp[('hexok', t.get_id())] = t
        eng.th.ax(z3.Not(eng.th.func('hexok', Str, z3.BoolSort())(eng.th.lit(''))))
        eng.th.ax(z3.And(hexval(eng, s) >= 0, hexval(eng, s) < 2 ** 128))
    return t


def hexval(eng, s):
    return eng.th.func('hexval', Str, z3.IntSort())(eng.strval(s))


@contract('~num::<impl u128>::from_str_radix$')
def c_from_str_radix(eng, st, c):
    if c.args[1] != 16:
        raise Unsupported('from_str_radix with radix %s' % (c.args[1],))
    s = deref(eng, st, c.args[0])
    return [(s2, ok(eng, c.rty, hexval(eng, s)) if y else err(eng, c.rty, errval(eng, c.rty, 'hex_err'))) for s2, y in eng.branch(st, hexok(eng, s))]


@contract('~num::<impl [iu](8|16|32|64|128|size)>::(saturating|wrapping|checked)_(add|sub)$')
def c_arith(eng, st, c):
    m = re.search(r'<impl ([iu]\w+)>::(\w+?)_(add|sub)$', short(c.f['decl']) if '<impl' in short(c.f['decl']) else c.f['decl'])
    if not m:
        raise Unsupported('call to %s' % c.f['decl'])
    lo, hi = krange(m.group(1))
    a, b = peel(c.args[0]), peel(c.args[1])
    v = a + b if m.group(3) == 'add' else a - b
    how = m.group(2)
    if not isinstance(v, int):
        v = z3.simplify(v)
    out = []
    for s2, above in eng.branch(st, v > hi):
        for s3, below in ([(s2, False)] if above else eng.branch(s2, v < lo)):
            fits = not above and not below
            if how == 'saturating':
                r = v if fits else hi if above else lo
            elif how == 'wrapping':
                r = v if fits else v - (hi - lo + 1) if above else v + (hi - lo + 1)
            else:
                r = some(eng, c.rty, v) if fits else none(eng, c.rty)
            out.append((s3, r))
    return out


@contract('~std::convert::TryFrom::try_from$', '~ as std::convert::TryFrom<.*>>::try_from$')
def c_try_from(eng, st, c):
    k = kind_of(eng, eng.p.T[c.rty]['args'][0])
    if k not in SCALARS or k[0] not in 'iu':
        raise Unsupported('try_from to %s' % k)
    v = peel(c.args[0])
    lo, hi = krange(k)
    y = lo <= v <= hi if isinstance(v, int) else z3.And(v >= lo, v <= hi)
    return [(s2, ok(eng, c.rty, v) if b else err(eng, c.rty, errval(eng, c.rty, 'int_err'))) for s2, b in eng.branch(st, y)]


@contract('~fmt::Arguments::<.*>::(new|from_str|from_str_nonconst|new_const|new_v1)$')
def c_args(eng, st, c):
    n = short(c.f['decl'])
    if n.startswith('from_str'):
        return [(st, Obj('Args', s=eng.strval(deref(eng, st, c.args[0]))))]
    if n != 'new':
        raise Unsupported('format arguments %s' % n)
    tpl = deref(eng, st, c.args[0])
    args = deref(eng, st, c.args[1])
    return [(st, Obj('Args', s=render(eng, st, [int(x) for x in tpl.items], list(args.items))))]


def render(eng, st, b, args):
    out, i, ai = [], 0, 0
    while i < len(b):
        n = b[i]
        i += 1
        if n == 0:
            break
        if n < 0x80:
            out.append(eng.th.lit(bytes(b[i:i + n]).decode()))
            i += n
        elif n == 0x80:
            ln = b[i] | (b[i + 1] << 8)
            i += 2
            out.append(eng.th.lit(bytes(b[i:i + ln]).decode()))
            i += ln
        else:
            spec = []
            if n & 1:
                spec.append(('fl', tuple(b[i:i + 4])))
                i += 4
            if n & 2:
                spec.append(('w', tuple(b[i:i + 2])))
                i += 2
            if n & 4:
                spec.append(('p', tuple(b[i:i + 2])))
                i += 2
            if n & 8:
                ai = b[i] | (b[i + 1] << 8)
                i += 2
            a = deref(eng, st, args[ai])
            ai += 1
            out.append(fmtarg(eng, st, a, tuple(spec)))
    return eng.cat(out)


def fmtarg(eng, st, a, spec):
    v = deref(eng, st, a.a['v'])
    if a.a['how'] == 'display' and not spec:
        vt = eng.p.T[a.a['ty']]
        while vt['k'] == 'ref':
            vt = eng.p.T[vt['ty']]
        r = show_states(eng, st, a.a['ty'], v)
        if len(r) != 1:
            raise Unsupported('Display with several outcomes inside format!')
        return r[0][1]
    if a.a['how'] == 'upper_hex' and spec == HEX2:
        k = kind_of(eng, a.a['ty'])
        if k in SCALARS:
            return hexdisp(eng, v)
    t = z3.Const('fmt_%s[%s|%s]' % (a.a['how'], spec, eng.canon(v)), Str)
    eng.th.keep.append(t)
    return t


@contract('~^std::fmt::format$', '~alloc::fmt::format$', '~fmt::format::format_inner$')
def c_format(eng, st, c):
    a = deref(eng, st, c.args[0])
    return [(st, a.a['s'])]


@contract('~^std::fmt::Arguments::<.*>::as_str$')
def c_args_as_str(eng, st, c):
    return [(st, none(eng, c.rty))]


@contract('~fmt::Formatter::<.*>::write_str$', '~fmt::Write>::write_str$', '~fmt::Formatter::<.*>::write_fmt$', '~fmt::Formatter::<.*>::pad$')
def c_write_str(eng, st, c):
    p = c.args[0]
    x = deref(eng, st, c.args[1])
    s = x.a['s'] if isinstance(x, Obj) and x.kind == 'Args' else eng.strval(x)
    f = eng.load(st, p.cell, p.path)
    if isinstance(f, Ptr):
        p = f
        f = eng.load(st, p.cell, p.path)
    outs = []
    if not f.a.get('mem'):
        s2 = st.fork()
        s2.ghost['fault'] = True
        outs.append((s2, err(eng, c.rty, errval(eng, c.rty))))
    eng.save(st, p.cell, p.path, f.with_(s=eng.cat([f.a['s'], s])))
    outs.append((st, ok(eng, c.rty)))
    return outs


@contract('~ as std::fmt::(Display|Debug|LowerHex|UpperHex)>::fmt$', 'std::fmt::Display::fmt', 'std::fmt::Debug::fmt')
def c_fmt(eng, st, c):
    k = kind_of(eng, c.f['declargs'][0]) if c.f['declargs'] else None
    how = c.f['decl'].split('::')[-2]
    if how != 'Display' or (k != 'str' and k not in SCALARS):
        if c.f.get('key') and eng.p.fns.get(c.f['key']):
            eng.push(st, c.f['key'], c.args, eng.dest(st, c.fr, c.t), c.t['t'])
            return [(st, None)]
        raise Unsupported('formatting of %s' % k)
    v = display(eng, k, deref(eng, st, c.args[0]))
    c2 = type(c)(eng, c.f, [c.args[1], RefV(v)], c.t, c.fr)
    return c_write_str(eng, st, c2)


# -- Option / Default -----------------------------------------------------------------------------------
@contract('std::default::Default::default')
def c_default(eng, st, c):
    t = eng.p.T[c.rty]
    if t['k'] == 'bool':
        return [(st, False)]
    if t['k'] == 'int':
        return [(st, 0)]
    if t['k'] == 'ref' and eng.p.T[t['ty']]['k'] == 'str':
        return [(st, RefV(eng.th.lit('')))]
    if eng.is_strty(t):
        return [(st, eng.th.lit(''))]
    if t['s'].startswith('std::vec::Vec<'):
        return [(st, Vec(()))]
    if t['s'].startswith('std::option::Option<'):
        return [(st, none(eng, c.rty))]
    if t['k'] == 'tuple' and not t['elems']:
        return [(st, UNIT)]
    if t['k'] == 'float':
        return [(st, z3.Const('%s:0.0' % t['s'], F32 if t['s'] == 'f32' else F64))]
    if c.f.get('key') and eng.p.fns.get(c.f['key']):
        eng.push(st, c.f['key'], c.args, eng.dest(st, c.fr, c.t), c.t['t'])
        return [(st, None)]
    raise Unsupported('default of %s' % t['s'])


@contract('~^std::mem::(take|replace|swap)$')
def c_mem(eng, st, c):
    n = short(c.f['decl'])
    p = c.args[0]
    old = eng.load(st, p.cell, p.path)
    if n == 'take':
        t = eng.p.T[c.rty]
        if t['s'].startswith('std::vec::Vec<'):
            new = Vec(())
        elif t['s'].startswith('std::option::Option<'):
            new = none(eng, c.rty)
        elif eng.is_strty(t):
            new = eng.th.lit('')
        elif t['k'] == 'bool':
            new = False
        elif t['k'] == 'int':
            new = 0
        else:
            raise Unsupported('mem::take of %s' % t['s'])
        eng.save(st, p.cell, p.path, new)
        return [(st, old)]
    if n == 'replace':
        eng.save(st, p.cell, p.path, c.args[1])
        return [(st, old)]
    q = c.args[1]
    o2 = eng.load(st, q.cell, q.path)
    eng.save(st, p.cell, p.path, o2)
    eng.save(st, q.cell, q.path, old)
    return [(st, UNIT)]


# -- Vec and iterators ------------------------------------------------------------------------------------
@contract('~^std::vec::Vec::<.*>::new$', '~^std::vec::Vec::<.*>::with_capacity$', '~<std::vec::Vec<T> as std::default::Default>::default')
def c_vecnew(eng, st, c):
    return [(st, Vec(()))]


@contract('~^std::vec::from_elem$')
def c_from_elem(eng, st, c):
    n = c.args[1]
    if isinstance(n, int) and n < 64:
        return [(st, Vec([('e', c.args[0])] * n))]
    raise Unsupported('vec![x; n]')


@contract('~^std::vec::Vec::<.*>::push$')
def c_push(eng, st, c):
    p = c.args[0]
    v = deref_vec(eng, st, p)
    eng.save(st, p.cell, p.path, Vec(v.parts + (('e', c.args[1]),)))
    return [(st, UNIT)]


def deref_vec(eng, st, p):
    v = eng.load(st, p.cell, p.path)
    if isinstance(v, Vec):
        return v
    raise Unsupported('not a vector: %r' % (v,))


@contract('~^std::vec::Vec::<.*>::(clear)$')
def c_clear(eng, st, c):
    p = c.args[0]
    eng.save(st, p.cell, p.path, Vec(()))
    return [(st, UNIT)]


@contract('~^std::vec::Vec::<.*>::pop$')
def c_pop(eng, st, c):
    p = c.args[0]
    v = deref_vec(eng, st, p)
    if not v.parts:
        return [(st, none(eng, c.rty))]
    if v.parts[-1][0] == 'e':
        eng.save(st, p.cell, p.path, Vec(v.parts[:-1]))
        return [(st, some(eng, c.rty, v.parts[-1][1]))]
    raise Unsupported('pop of a symbolic vector')


@contract('~slice::<impl \\[T\\]>::(first|last)$')
def c_first(eng, st, c):
    v = deref(eng, st, c.args[0])
    if isinstance(v, Arr):
        v = Vec([('e', x) for x in v.items])
    if not v.parts:
        return [(st, none(eng, c.rty))]
    i = 0 if short(c.f['decl']) == 'first' else -1
    if v.parts[i][0] == 'e':
        return [(st, some(eng, c.rty, RefV(v.parts[i][1])))]
    ps = v.parts if i == 0 else v.parts[::-1]
    outs = []
    for p in ps:
        if p[0] == 'e':
            return outs + [(st, some(eng, c.rty, RefV(p[1])))]
        if p[0] != 's' or p[1].kind != 'free':
            raise Unsupported('first/last of a symbolic vector')
        outs.append((st.fork(), some(eng, c.rty, RefV(p[1].elem))))
    return outs + [(st, none(eng, c.rty))]


@contract('~^<std::vec::Vec<T, A> as std::iter::Extend<.*>>::extend$', '~^std::vec::Vec::<.*>::(extend_from_slice|append)$')
def c_extend(eng, st, c):
    p = c.args[0]
    v = deref_vec(eng, st, p)
    src = c.args[1]
    if short(c.f['decl']) == 'append':
        q = src
        o = deref_vec(eng, st, q)
        eng.save(st, q.cell, q.path, Vec(()))
        parts = o.parts
        st2 = [(st, parts)]
    else:
        st2 = drain(eng, st, to_iter(eng, st, src))
    outs = []
    for s, parts in st2:
        v = deref_vec(eng, s, p)
        eng.save(s, p.cell, p.path, Vec(v.parts + tuple(parts)))
        outs.append((s, UNIT))
    return outs


@contract('~::Extend<.*>>::extend$', 'std::iter::Extend::extend')
def c_nsextend(eng, st, c):
    p = c.args[0]
    t = deref(eng, st, p)
    if isinstance(t, Obj) and t.kind == 'NS':
        o = deref(eng, st, c.args[1])
        if isinstance(o, Obj) and o.kind == 'NS':
            eng.save(st, p.cell, p.path, t.with_(parts=t.a['parts'] + o.a['parts']))
            return [(st, UNIT)]
    if isinstance(t, Vec):
        return c_extend(eng, st, c)
    raise Unsupported('extend of %r' % (t,))


def to_iter(eng, st, v):
    byref = isinstance(v, (RefV,))
    if isinstance(v, Ptr):
        t = eng.load(st, v.cell, v.path)
        if isinstance(t, Obj) and t.kind == 'It':
            return t
        raise Unsupported('iteration by mutable reference')
    w = deref(eng, st, v)
    if isinstance(w, Obj) and w.kind == 'It':
        return w
    if isinstance(w, Vec):
        return Obj('It', parts=w.parts, ref=byref, ops=())
    if isinstance(w, Arr):
        return Obj('It', parts=tuple(('e', x) for x in w.items), ref=byref, ops=())
    if isinstance(w, (Adt, Sym)) and eng.p.T[w.ty]['s'].startswith('std::option::Option<'):
        d = eng.disc_of(w)
        if isinstance(d, int):
            a = w if isinstance(w, Adt) else eng.expand(w, d)
            return Obj('It', parts=tuple(('e', x) for x in a.fields), ref=byref, ops=())
    raise Unsupported('iteration over %r' % (w,))


@contract('std::iter::IntoIterator::into_iter', '~slice::<impl \\[T\\]>::iter$', '~ as std::iter::IntoIterator>::into_iter$')
def c_iter(eng, st, c):
    v = c.args[0]
    w = deref(eng, st, v)
    if isinstance(w, (Adt, Sym)) and eng.p.T[w.ty]['s'].startswith('std::option::Option<') and not isinstance(eng.disc_of(w), int):
        return [(s, to_iter(eng, s, (RefV(a) if isinstance(v, RefV) else a)))
                for s, i in eng.cases(st, w, None) for a in [eng.expand(w, i)]]
    return [(st, to_iter(eng, st, v))]


@contract('~^std::option::Option::<T>::(iter|into_iter)$')
def c_optiter(eng, st, c):
    return c_iter(eng, st, c)


ITER_OPS = ('map', 'filter', 'cloned', 'copied', 'filter_map', 'inspect')


@contract('~^std::iter::Iterator::(map|filter|cloned|copied|filter_map|rev|by_ref)$')
def c_iterop(eng, st, c):
    it = to_iter(eng, st, c.args[0])
    n = short(c.f['decl'])
    if n == 'rev':
        if it.a['ops']:
            raise Unsupported('rev after an adapter')
        if len(it.a['parts']) <= 1 and all(p[0] == 'e' for p in it.a['parts']):
            return [(st, it)]
        if all(p[0] == 'e' for p in it.a['parts']):
            return [(st, it.with_(parts=tuple(reversed(it.a['parts']))))]
        return [(st, it.with_(parts=tuple(('r',) + p for p in reversed(it.a['parts']))))]
    if n == 'by_ref':
        return [(st, c.args[0])]
    return [(st, it.with_(ops=it.a['ops'] + ((n, c.args[1] if len(c.args) > 1 else None),)))]


@contract('~^std::iter::Iterator::chain$')
def c_chain(eng, st, c):
    a, b = to_iter(eng, st, c.args[0]), to_iter(eng, st, c.args[1])
    outs = []
    for s, pa in drain(eng, st, a, keepref=True):
        for s2, pb in drain(eng, s, b, keepref=True):
            outs.append((s2, Obj('It', parts=tuple(pa) + tuple(pb), ref=False, ops=())))
    return outs


def elem_of(it, x):
    return RefV(x) if it.a['ref'] else x


def apply_ops(eng, st, ops, x):
    """-> list of (state, value or None when filtered out)"""
    if not ops:
        return [(st, x)]
    n, f = ops[0]
    outs = []
    if n == 'map':
        for s, v in eng.call_sync(st, f, [x]):
            outs.extend(apply_ops(eng, s, ops[1:], v))
    elif n == 'filter':
        for s, v in eng.call_sync(st, f, [RefV(x)]):
            for s2, b in eng.branch(s, v):
                if b:
                    outs.extend(apply_ops(eng, s2, ops[1:], x))
                else:
                    outs.append((s2, None))
    elif n in ('cloned', 'copied'):
        outs = apply_ops(eng, st, ops[1:], deref(eng, st, x))
    elif n == 'filter_map':
        for s, v in eng.call_sync(st, f, [x]):
            for s2, i in eng.cases(s, v, None):
                a = v if isinstance(v, Adt) else eng.expand(v, i)
                if a.fields:
                    outs.extend(apply_ops(eng, s2, ops[1:], a.fields[0]))
                else:
                    outs.append((s2, None))
    else:
        raise Unsupported('iterator adapter %s' % n)
    return outs


def drain(eng, st, it, keepref=False):
    """All elements an iterator yields, as vector parts: list of (state, parts)."""
    res = [(st, [])]
    for p in it.a['parts']:
        nxt = []
        for s, acc in res:
            for s2, ps in drain_part(eng, s, it, p):
                nxt.append((s2, acc + ps))
        res = nxt
    return res


def drain_part(eng, st, it, p):
    ops = it.a['ops']
    if p[0] == 'e':
        return [(s, [] if v is None else [('e', v if not it.a['ref'] or ops else v)])
                for s, v in apply_ops(eng, st, ops, elem_of(it, p[1]))]
    if p[0] == 'o':
        outs = []
        for s, b in eng.branch(st, p[1]):
            outs.extend(drain_part(eng, s, it, ('e', p[2])) if b else [(s, [])])
        return outs
    if p[0] == 's':
        if not ops:
            return [(st, [p])]
        seq = p[1]
        base = len(st.pc)
        alts = []
        for s, v in apply_ops(eng, st.fork(), ops, elem_of(it, seq.elem)):
            nosideeffect(eng, st, s)
            alts.append((tuple(s.pc[base:]), () if v is None else (('e', v),)))
        if len(alts) == 1 and not alts[0][0] and len(alts[0][1]) == 1 and \
                eng.canon(peel(alts[0][1][0][1])) == eng.canon(peel(seq.elem)):
            return [(st, [p])]
        return [(st, [('F', seq, tuple(alts))])]
    if p[0] == 'F' :
        seq, alts = p[1], p[2]
        out = []
        for g, ps in alts:
            s0 = st.fork()
            base = len(s0.pc)
            if not all(eng.assume(s0, x) for x in g):
                continue
            cur = [(s0, ())]
            for q in ps:
                if q[0] != 'e':
                    raise Unsupported('nested sequence in an iterator')
                cur = [(s2, acc + (() if v is None else (('e', v),)))
                       for s, acc in cur for s2, v in apply_ops(eng, s, ops, elem_of(it, q[1]))]
            for s, acc in cur:
                nosideeffect(eng, st, s)
                out.append((tuple(s.pc[base:]), acc))
        return [(st, [('F', seq, tuple(out))])]
    raise Unsupported('iteration part %s' % p[0])


def nosideeffect(eng, a, b):
    for k, v in a.store.items():
        w = b.store.get(k)
        if w is not v and eng.canon(w) != eng.canon(v):
            raise Unsupported('side effect inside an iterator adapter')


@contract('~^std::iter::Iterator::collect$', '~::FromIterator<.*>>::from_iter$', 'std::iter::FromIterator::from_iter')
def c_collect(eng, st, c):
    it = to_iter(eng, st, c.args[0])
    rt = eng.p.T[c.rty]
    if rt['s'].startswith('std::result::Result<') or rt['s'].startswith('std::option::Option<'):
        return collect_result(eng, st, c, it, rt)
    outs = []
    for s, parts in drain(eng, st, it):
        ps = []
        owned = True
        for q in parts:
            ps.append(q)
        if eng.is_strty(rt):
            outs.append((s, join_term(eng, Vec(ps), eng.th.lit(''))))
        elif rt['s'].startswith('std::vec::Vec<') or eng.boxty(rt):
            outs.append((s, Vec(ps)))
        elif rt['s'] == '()':
            outs.append((s, UNIT))
        else:
            raise Unsupported('collect into %s' % rt['s'])
    return outs


def collect_result(eng, st, c, it, rt):
    good = {'Ok', 'Some'}
    inner = eng.p.T[rt['args'][0]]
    if not inner['s'].startswith('std::vec::Vec<'):
        raise Unsupported('collect into %s' % rt['s'])
    res = [(st, [], None)]
    for p in it.a['parts']:
        nxt = []
        for s, acc, bad in res:
            if bad is not None:
                nxt.append((s, acc, bad))
                continue
            if p[0] == 'e':
                for s2, v in apply_ops(eng, s, it.a['ops'], elem_of(it, p[1])):
                    if v is None:
                        nxt.append((s2, acc, None))
                        continue
                    for s3, i in eng.cases(s2, v, None):
                        a = v if isinstance(v, Adt) else eng.expand(v, i)
                        nm = eng.p.T[a.ty]['variants'][i]['name'].split('::')[-1]
                        if nm in good:
                            nxt.append((s3, acc + [('e', a.fields[0])], None))
                        else:
                            nxt.append((s3, acc, a))
            elif p[0] == 's':
                base = len(s.pc)
                alts = []
                for s2, v in apply_ops(eng, s.fork(), it.a['ops'], elem_of(it, p[1].elem)):
                    if v is None:
                        alts.append((tuple(s2.pc[base:]), ()))
                        continue
                    for s3, i in eng.cases(s2, v, None):
                        a = v if isinstance(v, Adt) else eng.expand(v, i)
                        nm = eng.p.T[a.ty]['variants'][i]['name'].split('::')[-1]
                        if nm in good:
                            nosideeffect(eng, s, s3)
                            alts.append((tuple(s3.pc[base:]), (('e', a.fields[0]),)))
                        else:
                            nxt.append((s3, acc, a))
                nxt.append((s, acc + [('F', p[1], tuple(alts))], None))
            else:
                raise Unsupported('collect over %s' % p[0])
        res = nxt
    outs = []
    for s, acc, bad in res:
        if bad is None:
            nm = 'Ok' if rt['s'].startswith('std::result') else 'Some'
            outs.append((s, variant(eng, c.rty, nm, [Vec(acc)])))
        else:
            nm = 'Err' if rt['s'].startswith('std::result') else 'None'
            outs.append((s, variant(eng, c.rty, nm, list(bad.fields))))
    return outs


@contract('~^std::iter::Iterator::(find|any|all|find_map|position)$', '~Iterator>::(find|any|all|find_map|position)$')
def c_find(eng, st, c):
    import foreach
    return foreach.search(eng, st, c)


@contract('~^std::iter::Iterator::(fold|for_each|try_for_each|count|last|nth|skip|take|zip|enumerate|flat_map|flatten|max|min|sum|peekable)$')
def c_itermisc(eng, st, c):
    n = short(c.f['decl'])
    it = to_iter(eng, st, c.args[0])
    if n == 'for_each' and all(p[0] == 'e' for p in it.a['parts']):
        res = [st]
        for p in it.a['parts']:
            nxt = []
            for s in res:
                for s2, v in apply_ops(eng, s, it.a['ops'] + (('map', c.args[1]),), elem_of(it, p[1])):
                    nxt.append(s2)
            res = nxt
        return [(s, UNIT) for s in res]
    raise Unsupported('iterator method %s' % n)


@contract('std::iter::Iterator::next', '~ as std::iter::Iterator>::next$')
def c_next(eng, st, c):
    import foreach
    return foreach.next_(eng, st, c)


# -- xml-rs: names, attributes, namespaces, builders ----------------------------------------------------------
def qname(eng, st, v):
    v = deref(eng, st, v)
    if isinstance(v, Obj) and v.kind == 'QName':
        return v
    if isinstance(v, (Adt, Sym)):
        # an OwnedName / Name value taken from the reader
        return Obj('QName', s=z3.Const('qname[%s]' % eng.canon(v), Str), src=v)
    return Obj('QName', s=eng.strval(v))


@contract('~name::(Name|OwnedName)(::<.*>)?::(local|from|borrow|to_owned)$')
def c_name(eng, st, c):
    return [(st, qname(eng, st, c.args[0]))]


@contract('~name::(Name|OwnedName)(::<.*>)?::(prefixed|qualified)$')
def c_prefixed(eng, st, c):
    if short(c.f['decl']) == 'prefixed':
        l, p = eng.strval(deref(eng, st, c.args[0])), eng.strval(deref(eng, st, c.args[1]))
        return [(st, Obj('QName', s=eng.cat([p, eng.th.lit(':'), l])))]
    raise Unsupported('qualified name')


@contract('~attribute::(Owned)?Attribute(::<.*>)?::new$')
def c_attrnew(eng, st, c):
    return [(st, Obj('Attr', name=qname(eng, st, c.args[0]).a['s'], value=eng.strval(deref(eng, st, c.args[1]))))]


@contract('~namespace::Namespace::empty$')
def c_nsempty(eng, st, c):
    return [(st, Obj('NS', parts=()))]


@contract('~namespace::Namespace::(put|force_put)$')
def c_nsput(eng, st, c):
    if short(c.f['decl']) == 'force_put':
        raise Unsupported('force_put')
    p = c.args[0]
    ns = eng.load(st, p.cell, p.path)
    e = ('e', eng.strval(deref(eng, st, c.args[1])), eng.strval(deref(eng, st, c.args[2])))
    eng.save(st, p.cell, p.path, ns.with_(parts=ns.a['parts'] + (e,)))
    return [(st, z3.Bool(eng.fresh('nsput')))]


@contract('~writer::(events::)?XmlEvent::<.*>::start_element$')
def c_start_element(eng, st, c):
    return [(st, Obj('SEB', name=qname(eng, st, c.args[0]).a['s'], attrs=(), ns=()))]


@contract('~StartElementBuilder::<.*>::attr$')
def c_attr(eng, st, c):
    b = c.args[0]
    a = Obj('Attr', name=qname(eng, st, c.args[1]).a['s'], value=eng.strval(deref(eng, st, c.args[2])))
    return [(st, b.with_(attrs=b.a['attrs'] + (('e', a),)))]


@contract('~StartElementBuilder::<.*>::(ns|default_ns)$')
def c_ns(eng, st, c):
    b = c.args[0]
    if short(c.f['decl']) == 'ns':
        e = ('e', eng.strval(deref(eng, st, c.args[1])), eng.strval(deref(eng, st, c.args[2])))
    else:
        e = ('e', eng.th.lit(''), eng.strval(deref(eng, st, c.args[1])))
    return [(st, b.with_(ns=b.a['ns'] + (e,)))]


@contract('~writer::(events::)?XmlEvent::<.*>::(characters|cdata|end_element|comment)$')
def c_wev(eng, st, c):
    n = short(c.f['decl'])
    if n == 'end_element':
        return [(st, Obj('WEnd'))]
    # keep the enum shape so that the code may match on it
    t = c.rty
    nm = {'characters': 'Characters', 'cdata': 'CData', 'comment': 'Comment'}[n]
    return [(st, variant(eng, t, nm, [RefV(eng.strval(deref(eng, st, c.args[0])))]))]


def wty(eng):
    for s, i in eng.p.byname.items():
        if re.match(r'^yaserde::xml::writer::XmlEvent<', s) or s.startswith('xml::writer::XmlEvent<'):
            return i
    raise Unsupported('no writer event type')


def to_wev(eng, st, v):
    """Into<writer::XmlEvent>"""
    w = deref(eng, st, v) if isinstance(v, RefV) else v
    if isinstance(w, Obj) and w.kind == 'SEB':
        return variant(eng, wty(eng), 'StartElement', [Obj('QName', s=w.a['name']), Vec(w.a['attrs']), Obj('NS', parts=w.a['ns'])])
    if isinstance(w, Obj) and w.kind == 'WEnd':
        t = wty(eng)
        vs = [x for x in eng.p.T[t]['variants'] if x['name'].split('::')[-1] == 'EndElement'][0]
        oty = vs['fields'][0]['ty']
        return variant(eng, t, 'EndElement', [none(eng, oty)])
    if is_z3(w) and w.sort() == Str:
        return variant(eng, wty(eng), 'Characters', [RefV(w)])
    return w


@contract('~EndElementBuilder')
def c_eeb(eng, st, c):
    raise Unsupported('named end element')


def evnorm(eng, st, v):
    """A writer event as a log entry."""
    v = to_wev(eng, st, v)
    if isinstance(v, Obj) and v.kind == 'WCopy':
        return Obj('Copy', ev=v.a['ev'])
    if isinstance(v, Adt):
        n = eng.p.T[v.ty]['variants'][v.var]['name'].split('::')[-1]
        if n == 'StartElement':
            name, attrs, ns = v.fields
            attrs = deref(eng, st, attrs)
            if isinstance(attrs, Arr):
                attrs = Vec([('e', x) for x in attrs.items])
            return Obj('Start', name=qname(eng, st, name).a['s'], attrs=attrs, ns=deref(eng, st, ns))
        if n == 'EndElement':
            f = v.fields[0]
            if isinstance(f, Adt) and not f.fields:
                return Obj('End')
            raise Unsupported('named end element')
        if n == 'Characters':
            return Obj('Chars', s=eng.strval(deref(eng, st, v.fields[0])))
        if n == 'CData':
            return Obj('CData', s=eng.strval(deref(eng, st, v.fields[0])))
        return Obj('Other', n=n)
    raise Unsupported('write of %r' % (v,))


# -- xml-rs: the event writer -------------------------------------------------------------------------------------
@contract('~EventWriter::<W>::write$')
def c_write(eng, st, c):
    p = c.args[0]
    ev = evnorm(eng, st, c.args[1])
    return do_write(eng, st, c, p, ev)


def do_write(eng, st, c, p, ev):
    w = eng.load(st, p.cell, p.path)
    outs = []
    if w.a.get('sink') is not None:
        eng.assumptions.add('an EventWriter over an in-memory Vec<u8> accepts a well-formed event sequence')
        q = w.a['sink']
        v = eng.load(st, q.cell, q.path)
        if not isinstance(v, Vec):
            raise Unsupported('event sink %r' % (v,))
        eng.save(st, q.cell, q.path, Vec(v.parts + (('e', ev),)))
        return [(st, ok(eng, c.rty))]
    s2 = st.fork()
    s2.ghost['fault'] = True
    s2.ghost['err'] = s2.ghost.get('err', 0) + 1
    outs.append((s2, err(eng, c.rty, errval(eng, c.rty, 'write_error'))))
    eng.save(st, p.cell, p.path, w.with_(log=Vec(w.a['log'].parts + (('e', ev),))))
    outs.append((st, ok(eng, c.rty)))
    return outs


@contract('~EventWriter::<W>::(new|new_with_config)$')
def c_ewnew(eng, st, c):
    v = c.args[0]
    cfg = c.args[1] if len(c.args) > 1 else None
    if isinstance(v, Ptr):
        t = eng.load(st, v.cell, v.path)
        if isinstance(t, Vec):
            return [(st, Obj('EW', sink=v, log=Vec(()), inner=None, cfg=cfg))]
    return [(st, Obj('EW', sink=None, log=Vec(()), inner=v, cfg=cfg))]


@contract('~EventWriter::<W>::into_inner$')
def c_ewinner(eng, st, c):
    w = c.args[0]
    inner = w.a['inner']
    return [(st, Obj('Sunk', inner=inner, log=w.a['log'], cfg=w.a['cfg']))]


@contract('~EventWriter::<W>::(inner_mut|inner_ref)$')
def c_ewinnerref(eng, st, c):
    raise Unsupported('EventWriter::inner')


@contract('~reader::(events::)?XmlEvent::as_writer_event$')
def c_as_writer_event(eng, st, c):
    ev = deref(eng, st, c.args[0])
    outs = []
    for s, i in eng.cases(st, ev, None):
        a = ev if isinstance(ev, Adt) else eng.expand(ev, i)
        n = eng.p.T[a.ty]['variants'][i]['name'].split('::')[-1]
        if n in ('EndDocument', 'Doctype', 'StartDocument') and n != 'StartDocument':
            outs.append((s, none(eng, c.rty)))
        else:
            outs.append((s, some(eng, c.rty, Obj('WCopy', ev=a))))
    return outs


# -- xml-rs: the event reader ---------------------------------------------------------------------------------------
@contract('~EventReader::<R>::next$')
def c_reader_next(eng, st, c):
    h = getattr(eng, 'stream', None)
    if h is None:
        raise Unsupported('event stream outside a stream run')
    return h.next_raw(eng, st, c)


@contract('~reader::(error::)?Error::msg$')
def c_errmsg(eng, st, c):
    return [(st, RefV(z3.Const('reader_msg', Str)))]


@contract('~EventReader::<R>::new_with_config$')
def c_ernew(eng, st, c):
    return [(st, Obj('ER', inner=c.args[0], cfg=c.args[1]))]


@contract('~EventReader::<R>::new$')
def c_ernew1(eng, st, c):
    return [(st, Obj('ER', inner=c.args[0], cfg=None))]


# -- xml-rs: configuration builders -----------------------------------------------------------------------------------
@contract('~(ParserConfig|EmitterConfig)::new$', '~<.*(ParserConfig|EmitterConfig) as std::default::Default>::default')
def c_cfgnew(eng, st, c):
    k = 'ParserConfig' if 'ParserConfig' in (c.f['def'] or '') else 'EmitterConfig'
    return [(st, Obj('Cfg', of=k, opts=()))]


@contract('~(ParserConfig|EmitterConfig)::[a-z_]+$')
def c_cfgset(eng, st, c):
    o = c.args[0]
    n = short(c.f['decl'])
    if not isinstance(o, Obj) or o.kind != 'Cfg' or len(c.args) != 2:
        raise Unsupported('config method %s' % n)
    v = c.args[1]
    if isinstance(v, RefV):
        v = deref(eng, st, v)
    opts = tuple(x for x in o.a['opts'] if x[0] != n) + ((n, v),)
    return [(st, o.with_(opts=tuple(sorted(opts, key=lambda x: x[0]))))]


# -- io -----------------------------------------------------------------------------------------------------------------
@contract('~^std::io::Cursor::<T>::new$')
def c_cursor(eng, st, c):
    return [(st, Obj('Cursor', inner=c.args[0]))]


@contract('~^std::io::Cursor::<T>::(get_ref|into_inner)$')
def c_cursorref(eng, st, c):
    v = deref(eng, st, c.args[0])
    if isinstance(v, Obj) and v.kind == 'Sunk':
        if not (isinstance(v.a['inner'], Obj) and v.a['inner'].kind == 'Cursor' and isinstance(v.a['inner'].a['inner'], Vec) and not v.a['inner'].a['inner'].parts):
            raise Unsupported('cursor over a non-empty buffer')
        r = Obj('Bytes', log=v.a['log'], cfg=v.a['cfg'])
        return [(st, RefV(r) if short(c.f['decl']) == 'get_ref' else r)]
    raise Unsupported('cursor contents %r' % (v,))


@contract('~^std::hint::must_use$', '~^std::convert::identity$', '~^std::hint::black_box$')
def c_id(eng, st, c):
    return [(st, c.args[0])]


@contract('~^core::intrinsics::', '~^std::intrinsics::')
def c_intrinsic(eng, st, c):
    n = short(c.f['decl'])
    if n == 'discriminant_value':
        return [(st, eng.disc_of(deref(eng, st, c.args[0])))]
    if n in ('cold_path', 'assert_inhabited', 'assert_zero_valid'):
        return [(st, UNIT)]
    if n in ('likely', 'unlikely'):
        return [(st, c.args[0])]
    raise Unsupported('intrinsic %s' % n)
