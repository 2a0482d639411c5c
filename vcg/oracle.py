"""The specification on concrete values and documents (the same rules as verify_ser.SerSpec and
deser.StructRun/EnumRun/PrimRun), used to replay the real code on concrete inputs."""
import re
import struct
import xml.parsers.expat
from corpus import BY, SCALARS
from verify_ser import props_of
from deser import de_props

WS = ' \t\r\n'


class Skip(Exception):
    """outside the specification"""


class Bad(Exception):
    """the specification demands Err"""

    def __init__(self, why, props):
        Exception.__init__(self, why)
        self.why = why
        self.props = frozenset(props)


# -- documents ---------------------------------------------------------------------------------------------------
class El:
    """kids: El | ('t', s) text | ('c', s) cdata | ('m', s) comment | ('p', s) processing instruction"""

    def __init__(self, local, ns='', attrs=(), kids=(), empty=False):
        self.local = local
        self.ns = ns
        self.attrs = list(attrs)
        self.kids = list(kids)
        self.empty = empty          # written as <a/> when it has no content

    def copy(self):
        return El(self.local, self.ns, self.attrs, [k.copy() if isinstance(k, El) else k for k in self.kids], self.empty)

    def els(self):
        return [k for k in self.kids if isinstance(k, El)]

    def runs(self):
        """character runs as the reader delivers them: white space around a run is not content"""
        out, cur, n = [], '', 0
        for k in self.kids + [None]:
            if k is not None and not isinstance(k, El):
                if k[0] in 'tc':
                    cur += k[1]
                    n += 1
                elif k[0] == 'p' and cur.strip(WS):
                    n += 100        # a run interrupted by a processing instruction: one or two runs, unspecified
                continue            # a comment does not interrupt
            if cur.strip(WS):
                if n > 100:
                    raise Skip('text interrupted by a processing instruction')
                out.append(cur.strip(WS))
            cur, n = '', 0
        return out

    def text(self):
        r = self.runs()
        if len(r) > 1:
            raise Skip('several runs of text')
        return r[0] if r else ''


def esc(s, attr=False):
    s = s.replace('&', '&amp;').replace('<', '&lt;').replace('>', '&gt;')
    if attr:
        s = s.replace('"', '&quot;').replace('\n', '&#10;').replace('\r', '&#13;').replace('\t', '&#9;')
    return s.replace('\r', '&#13;')


def write(el, style=0, scope=''):
    """style 0: a prefix for every namespace; 1: default namespaces"""
    if not isinstance(el, El):
        k, s = el
        return {'t': esc(s), 'c': '<![CDATA[%s]]>' % s, 'm': '<!--%s-->' % s, 'p': '<?%s?>' % s}[k]
    a = ''
    name = el.local
    if style == 0:
        if el.ns:
            p = {'http://ex.org/a': 'a', 'http://ex.org/b': 'b'}.get(el.ns, 'z')
            a += ' xmlns:%s="%s"' % (p, esc(el.ns or '', True))
            name = p + ':' + name
    else:
        if el.ns != scope:
            a += ' xmlns="%s"' % esc(el.ns or '', True)
        scope = el.ns
    for k, v in el.attrs:
        a += ' %s="%s"' % (k, esc(v, True))
    if not el.kids and el.empty:
        return '<%s%s/>' % (name, a)
    return '<%s%s>%s</%s>' % (name, a, ''.join(write(k, style, scope) for k in el.kids), name)


# -- scalars -----------------------------------------------------------------------------------------------------------
INT = {'i8': (-128, 127), 'u8': (0, 255), 'i16': (-2**15, 2**15 - 1), 'u16': (0, 2**16 - 1), 'i32': (-2**31, 2**31 - 1), 'u32': (0, 2**32 - 1),
       'i64': (-2**63, 2**63 - 1), 'u64': (0, 2**64 - 1)}


def canon_float(base, x):
    """Display form of a float as Rust writes it: shortest digits, no exponent"""
    if x != x:
        return 'NaN'
    if x in (float('inf'), float('-inf')):
        return 'inf' if x > 0 else '-inf'
    if base == 'f32':
        for d in range(1, 12):
            r = '%.*e' % (d - 1, x)
            if struct.unpack('f', struct.pack('f', float(r)))[0] == x:
                break
    else:
        r = repr(x)
    from decimal import Decimal
    s = format(Decimal(r), 'f')
    if '.' in s:
        s = s.rstrip('0').rstrip('.')
    if s in ('-0', '0') and struct.pack('d', x)[7] & 0x80:
        s = '-0'
    return s


def f32_of(s):
    """the float nearest to the decimal text, ties to even (never rounded through a double)"""
    from fractions import Fraction
    neg = s.startswith('-')
    e = re.search('[eE]([+-]?[0-9]+)$', s)
    if e and abs(int(e.group(1))) > 400:
        x = float(s)
        return struct.unpack('f', struct.pack('f', x))[0] if abs(x) < 1 else x
    q = abs(Fraction(s.rstrip('.') if not e else s))
    if q == 0:
        return -0.0 if neg else 0.0
    ex = 0
    while Fraction(2) ** ex > q:
        ex -= 1
    while Fraction(2) ** (ex + 1) <= q:
        ex += 1
    unit = Fraction(2) ** (max(ex, -126) - 23)
    n = q / unit
    k = n.numerator // n.denominator
    r = n - k
    if r > Fraction(1, 2) or r == Fraction(1, 2) and k % 2:
        k += 1
    v = k * unit
    v = float('inf') if v >= Fraction(2) ** 128 else float(v)
    return -v if neg else v


def parse_scalar(base, s, mapbool):
    """-> canonical Display text, or None when FromStr refuses it"""
    if base == 'String':
        return s
    if base == 'bool':
        if s in ('true', 'false'):
            return s
        if mapbool and s in ('1', '0'):
            return 'true' if s == '1' else 'false'
        return None
    if base in INT:
        if not re.fullmatch(r'[+-]?[0-9]+', s) or s[0] == '-' and base[0] == 'u':
            return None
        v = int(s)
        lo, hi = INT[base]
        return str(v) if lo <= v <= hi else None
    if re.fullmatch(r'[+-]?(inf|infinity|nan)', s, re.I):
        v = float(s.lower().replace('infinity', 'inf'))
        return 'NaN' if v != v else 'inf' if v > 0 else '-inf'
    if not re.fullmatch(r'[+-]?([0-9]+\.?[0-9]*|\.[0-9]+)([eE][+-]?[0-9]+)?', s):
        return None
    return canon_float(base, f32_of(s) if base == 'f32' else float(s))


DFLT = {'i32': '7', 'u8': '9', 'bool': 'true', 'String': 'dflt', 'Leaf': ('70', 'dk'), 'Option<i32>': ('S', '7'), 'Vec<u8>': ['9'], 'Option<Leaf>': None, 'Option<String>': ('S', 'dflt'),
        'Kind': ('V', 2), 'Num': '4', 'f64': '1.5'}
PRED = {'i32': lambda v: int(v) < 0, 'String': lambda v: v.startswith('no'), 'Option<i32>': lambda v: v is not None and int(v[1]) < 0,
        'Vec<u8>': lambda v: v[:1] == ['1'], 'Leaf': lambda v: int(v[0]) < 0, 'FlIn': lambda v: int(v[0]) < 0,
        'Option<Leaf>': lambda v: v is not None and int(v[1][0]) < 0, 'Vec<Leaf>': lambda v: len(v) == 1,
        'Option<String>': lambda v: v == ('S', 'no'), 'Option<bool>': lambda v: v == ('S', 'false'), 'Vec<String>': lambda v: len(v) == 2, 'Kind': lambda v: v[1] == 0,
        'Option<Kind>': lambda v: v is not None and v[1][1] == 2, 'Vec<Kind>': lambda v: len(v) == 1, 'Num': lambda v: v == '5'}
ZERO = {'bool': 'false', 'String': ''}


def default_base(b):
    if b in SCALARS or b == 'String':
        return ZERO.get(b, '0')
    t = BY[b]
    if t.prim:
        return default_base(t.prim)
    if t.kind == 'struct':
        return tuple(default_field(f) for f in t.fields)
    for i, v in enumerate(t.variants):
        if v.payload is None and not v.named:
            return ('V', i)
    return ('V', 0, default_field(t.variants[0].payload))


def default_field(f):
    return {'plain': lambda: default_base(f.base), 'opt': lambda: None, 'vec': lambda: []}[f.wrap]()


# -- deserialization ------------------------------------------------------------------------------------------------------
def conv(base, s, mapbool):
    """one text as a scalar or attribute-like value; None when unreadable"""
    if base in SCALARS or base == 'String':
        return parse_scalar(base, s, mapbool)
    if re.search('[<&>]', s):
        raise Skip('markup in an attribute of enum type')
    try:
        return de(BY[base], El(base, '', (), [('t', s)] if s else []), True)
    except Bad:
        return None


def de(t, el, top):
    return {'struct': de_struct, 'enum': de_enum, 'prim': de_prim}[t.kind](t, el, top)


def attr_of(el, name):
    v = [x for k, x in el.attrs if k.split(':')[-1] == name]
    if len(v) > 1:
        raise Skip('attributes with equal local names')
    return v[0] if v else None


def ns_check(t, el):
    if el.ns and el.ns != t.own_uri:
        raise Bad('wrong namespace', {'C07'})


def de_struct(t, el, top):
    if top:
        ns_check(t, el)
    elems = [f for f in t.fields if f.role in ('elem', 'cdata')]
    if t.flatten and el.local in [f.label for f in elems]:
        raise Skip('a flattened type whose element is named like a field')
    acc = {}
    bad = []
    for f in t.fields:
        if f.wrap == 'vec':
            acc[f.name] = []
        if f.role == 'attr':
            v = attr_of(el, f.label)
            if v is None:
                continue
            if f.wrap == 'vec':
                ws = [conv(f.base, w, True) for w in re.split('[ \t\r\n\v\f\u0085\u00a0\u1680\u2000-\u200a\u2028\u2029\u202f\u205f\u3000]+', v) if w]
                if None in ws:
                    bad.append(Bad('malformed attribute', de_props(t, f) | {'C12'}))
                acc[f.name] = ws
            else:
                x = conv(f.base, v, True)
                if x is None:
                    bad.append(Bad('malformed attribute', de_props(t, f) | {'C12'}))
                acc[f.name] = x
    flat = []
    for k in el.kids:
        if not isinstance(k, El):
            flat.append(k)
            continue
        fs = [f for f in elems if t.uri(f) == k.ns and f.label == k.local]
        if not fs:
            flat.append(k)
            continue
        f = fs[0]
        if f.scalar:
            if k.els():
                continue
            x = parse_scalar(f.base, k.text(), True)
            if x is None:
                continue
        else:
            try:
                x = de(BY[f.base], k, False)
            except Bad as b:
                bad.append(Bad(b.why, b.props | {'C12'}))
                continue
        if f.wrap == 'vec':
            acc[f.name].append(x)
        else:
            acc[f.name] = x
    texts = [f for f in t.fields if f.role == 'text']
    runs = el.runs()
    if texts:
        if len(runs) > 1:
            raise Skip('several runs of text')
        if runs:
            for f in texts:
                acc[f.name] = runs[0]
    out = []
    for f in t.fields:
        if f.role == 'flatten':
            fl = El(el.local, el.ns, el.attrs, flat)
            if len(fl.runs()) == 1 and fl.runs()[0] != ''.join(runs):
                raise Skip('several runs of text')
            try:
                x = de(BY[f.base], fl, True)
                out.append(x if f.wrap == 'plain' else ('S', x))
            except Bad as b:
                if f.wrap == 'plain':
                    bad.append(Bad(b.why, b.props | {'C09', 'C12'}))
                out.append(None)
        elif f.wrap == 'vec':
            out.append(acc[f.name])
        elif f.wrap == 'opt':
            out.append(('S', acc[f.name]) if f.name in acc else None)
        elif f.name in acc:
            out.append(acc[f.name])
        elif f.default:
            out.append(DFLT[f.default])
        else:
            bad.append(Bad('field %s is missing' % f.name, de_props(t, f) | {'C05'}))
            out.append(None)
    if bad:
        raise Bad(bad[0].why, frozenset().union(*[b.props for b in bad]))
    return tuple(out)


def de_enum(t, el, top):
    labels = [v.label for v in t.variants]
    if not t.tag and (t.flatten or top) and el.local in labels and (t.flatten or el.local != t.root):
        raise Skip('an enum element named like a variant')
    ns_check(t, el)
    runs = el.runs()
    if t.tag:
        v = attr_of(el, t.tag)
        if v is None:
            raise Bad('the tag attribute is missing', {'C08', 'C12'})
        for i, x in enumerate(t.variants):
            if x.label == v:
                return ('V', i)
        return default_base(t.name)
    if runs:
        if t.flatten or len(runs) > 1 or any(k.local in labels for k in el.els()):
            raise Skip('mixed content in an enum')
        for i, x in enumerate(t.variants):
            if x.label == runs[0] and not x.payload:
                return ('V', i)
        return default_base(t.name)
    val = None
    for k in el.els():
        for i, v in enumerate(t.variants):
            if v.label == k.local:
                break
        else:
            continue
        if val is not None and not (val[1] == i and v.payload and v.payload.wrap == 'vec'):
            raise Skip('several variants')
        f = v.payload
        if f is None:
            val = ('V', i)
            continue
        if f.scalar:
            if k.els():
                continue
            s = k.text()
            if f.base == 'bool' and s in '01' and s:
                raise Skip('bool payload written as a digit')
            x = parse_scalar(f.base, s, False)
            if x is None:
                continue
        else:
            try:
                x = de(BY[f.base], k, False)
            except Bad as b:
                raise Bad(b.why, b.props | {'C08', 'C12'})
        if f.wrap == 'vec':
            val = ('V', i, (val[2] if val else []) + [x])
        else:
            val = ('V', i, ('S', x) if f.wrap == 'opt' else x)
    return val if val is not None else default_base(t.name)


def parse_hex(base, s):
    if not re.fullmatch('[+]?[0-9a-fA-F]+', s) or int(s, 16) > INT[base][1]:
        return None
    return str(int(s, 16))


def de_prim(t, el, top):
    if el.els():
        raise Skip('elements in a primitive')
    x = parse_hex(t.prim, el.text()) if t.hex else parse_scalar(t.prim, el.text(), False)
    if x is None:
        raise Bad('FromStr refuses the text', {'C16'})
    return x


# -- serialization --------------------------------------------------------------------------------------------------------
def writes(t, f, v):
    if f.skip:
        return False
    if f.skip_if and PRED[f.skip_if](v):
        return False
    if f.default and v == DFLT[f.default]:
        return False
    return True


def fval(f, v):
    """present values of a field"""
    return [v] if f.wrap == 'plain' else ([] if v is None else [v[1]]) if f.wrap == 'opt' else list(v)


def attr_text(base, v):
    if base in SCALARS or base == 'String':
        return v
    ev = emit(BY[base], v, True, None)
    if any(e[0] != 'C' for e in ev):
        raise Skip('markup in an attribute value')
    return ''.join(e[1] for e in ev)


def own_attrs(t, v):
    """-> [(name, value, props)], [(prefix, uri)]"""
    a, n = [], list(t.declared)
    if t.kind == 'struct':
        for f, x in zip(t.fields, v):
            if f.role == 'attr' and writes(t, f, x):
                xs = fval(f, x)
                if xs:
                    a.append((t.written(f), ' '.join(attr_text(f.base, y) for y in xs), props_of(t, f)))
        for f, x in zip(t.fields, v):
            if f.role == 'flatten' and f.wrap != 'vec' and writes(t, f, x):
                for y in fval(f, x):
                    a2, n2 = own_attrs(BY[f.base], y)
                    a += [(k, w, p | {'C09'}) for k, w, p in a2]
                    n += n2
    elif t.kind == 'enum' and t.tag:
        a.append((t.tag, t.variants[v[1]].label, props_of(t) | {'C04'}))
    elif t.kind == 'enum' and t.flatten and t.variants[v[1]].flatten:
        raise Skip('attributes of a flattened variant')
    return a, n


def emit(t, v, skip, name):
    """events: ('S', name, attrs, ns, props) | ('C', text, props) | ('D', text, props) | ('E', props)"""
    pr = props_of(t)
    if t.kind == 'prim':
        pr = frozenset({'C16', 'C12', 'C01', 'C13'})
        ev = [('C', '%02X' % int(v) if t.hex else v, pr)]
        return ev if skip else [('S', name or t.name, [], [], pr)] + ev + [('E', pr)]
    ev = []
    if t.kind == 'enum' and any(x.flatten for x in t.variants) and (not skip or name):
        raise Skip('a flattened variant written by itself')
    if t.flatten:
        skip = True
    if not skip:
        a, n = own_attrs(t, v)
        ev.append(('S', name or t.root_written, a, n, pr))
    if t.kind == 'struct':
        for f, x in zip(t.fields, v):
            if f.role == 'attr':
                continue
            p = props_of(t, f)
            if not writes(t, f, x) or not fval(f, x):
                # what is written here in spite of that is blamed on this field
                if ev:
                    ev[-1] = ev[-1][:-1] + (frozenset(ev[-1][-1] | p),)
                if not writes(t, f, x) or f.role != 'text':
                    continue
            lab = t.written(f)
            if f.role == 'text':
                ev.append(('C', (fval(f, x) or [''])[0], p))
                continue
            for y in fval(f, x):
                if f.role == 'cdata':
                    ev += [('S', lab, [], [], p), ('D', y, p), ('E', p)]
                elif f.role == 'flatten':
                    ev += mark(emit(BY[f.base], y, True, None), p)
                elif f.scalar:
                    ev += [('S', lab, [], [], p), ('C', y, p), ('E', p)]
                else:
                    ev += mark(emit(BY[f.base], y, False, lab), p)
    else:
        var = t.variants[v[1]]
        lab = t.written(var)
        if var.named:
            for f, x in zip(var.named, v[2]):
                p = props_of(t, f)
                for y in fval(f, x):
                    if f.scalar:
                        ev += [('S', t.written(f), [], [], p), ('C', y, p), ('E', p)]
                    else:
                        ev += mark(emit(BY[f.base], y, False, t.written(f)), p)
        elif var.payload is None:
            if not t.tag:
                ev.append(('C', lab, pr))
        else:
            f = var.payload
            p = props_of(t, f)
            for y in fval(f, v[2]):
                if var.flatten:
                    ev += mark(emit(BY[f.base], y, True, None), p | {'C09'})
                elif f.scalar:
                    ev += [('S', lab, [], [], p), ('C', y, p), ('E', p)]
                else:
                    a, n = own_attrs(BY[f.base], y) if BY[f.base].kind != 'prim' else ([], [])
                    ev += [('S', lab, a, n, p | {'C04'})] + mark(emit(BY[f.base], y, True, None), p) + [('E', p)]
    if not skip:
        ev.append(('E', pr))
    return ev


def mark(ev, p):
    return [e[:-1] + (frozenset(e[-1] | (p & {'C09', 'C08', 'C06', 'C07', 'C02'})),) for e in ev]


class Malformed(Exception):
    pass


DECL = re.compile(r'^<\?xml[^>]*\?>')


def parse_out(xml_text):
    """events of what was written: ('S', name, attrs dict, xmlns dict) ('C', s) ('D', s) ('E',)"""
    ev = []
    cd = [None]
    p = xml.parsers.expat.ParserCreate()
    p.ordered_attributes = True

    def start(n, a):
        at = list(zip(a[::2], a[1::2]))
        ev.append(('S', n, [x for x in at if not (x[0] == 'xmlns' or x[0].startswith('xmlns:'))],
                   [(x[0][6:], x[1]) for x in at if x[0] == 'xmlns' or x[0].startswith('xmlns:')]))

    def chars(s):
        if cd[0] is not None:
            cd[0] += s
        elif ev and ev[-1][0] == 'C':
            ev[-1] = ('C', ev[-1][1] + s)
        else:
            ev.append(('C', s))

    def cds():
        cd[0] = ''

    def cde():
        ev.append(('D', cd[0]))
        cd[0] = None
    p.StartElementHandler = start
    p.EndElementHandler = lambda n: ev.append(('E',))
    p.CharacterDataHandler = chars
    p.StartCdataSectionHandler = cds
    p.EndCdataSectionHandler = cde
    try:
        p.Parse('<W>' + DECL.sub('', xml_text) + '</W>', True)
    except xml.parsers.expat.ExpatError as e:
        raise Malformed(str(e))
    return ev[1:-1]


def merge(ev):
    out = []
    for e in ev:
        if e[0] == 'C':
            if not e[1]:
                continue
            if out and out[-1][0] == 'C':
                out[-1] = ('C', out[-1][1] + e[1], out[-1][2] | e[2])
                continue
        out.append(e)
    return out


def compare_out(spec, got, strip_indent=False):
    """-> None or (what, props)"""
    spec = merge(spec)
    stack = [{}]
    if strip_indent:
        got = [e for e in got if not (e[0] == 'C' and not e[1].strip(WS))]
    nb = lambda i: frozenset().union(*[spec[j][-1] for j in (i - 1, i, i + 1) if 0 <= j < len(spec)])
    for i in range(max(len(spec), len(got))):
        if i >= len(spec):
            return 'extra output %r' % (got[i],), nb(i - 1)
        e = spec[i]
        if i >= len(got):
            return 'missing output %r' % (e[:-1],), nb(i)
        g = got[i]
        if e[0] != g[0]:
            return 'expected %r, written %r' % (e[:-1], g), nb(i)
        if e[0] in 'CD':
            if e[1] != g[1]:
                return 'expected %r, written %r' % (e[1], g[1]), nb(i)
        elif e[0] == 'E':
            stack.pop()
        elif e[0] == 'S':
            if e[1] != g[1]:
                return 'expected <%s>, written <%s>' % (e[1], g[1]), nb(i) | {'C07'} if ':' in e[1] + g[1] else nb(i)
            want = sorted((k, v) for k, v, p in e[2])
            if want != sorted(g[2]):
                ps = set(e[-1]) | {'C04'}
                for k, v, p in e[2]:
                    if (k, v) not in g[2]:
                        ps |= p
                for k, v in g[2]:
                    if (k, v) not in want:
                        for k2, v2, p in e[2]:
                            if k2 == k:
                                ps |= p
                        ps |= {'C06'}
                return 'expected attributes %r, written %r' % (want, g[2]), ps
            scope = dict(stack[-1])
            for p, u in g[3]:
                if (p, u) not in e[3]:
                    return 'namespace %s="%s" declared, configured are %r' % (p, u, e[3]), {'C07'}
                scope[p] = u
            for p, u in e[3]:
                if scope.get(p) != u:
                    return 'namespace %s="%s" not declared' % (p, u), {'C07', 'C09'}
            stack.append(scope)
    return None


# -- value encoding ---------------------------------------------------------------------------------------------------------
def enc_base(b, v, out):
    if b in SCALARS or b == 'String':
        out.append('s' + v.encode().hex())
        return
    t = BY[b]
    if t.prim:
        enc_base(t.prim, v, out)
    elif t.kind == 'struct':
        for f, x in zip(t.fields, v):
            enc_field(f, x, out)
    else:
        out.append('V%d' % v[1])
        if t.variants[v[1]].payload:
            enc_field(t.variants[v[1]].payload, v[2], out)
        for f, x in zip(t.variants[v[1]].named, v[2]) if t.variants[v[1]].named else ():
            enc_field(f, x, out)


def enc_field(f, v, out):
    if f.wrap == 'plain':
        enc_base(f.base, v, out)
    elif f.wrap == 'opt':
        if v is None:
            out.append('N')
        else:
            out.append('S')
            enc_base(f.base, v[1], out)
    else:
        out.append('L%d' % len(v))
        for x in v:
            enc_base(f.base, x, out)


def encode(t, v):
    out = []
    enc_base(t.name, v, out)
    return ' '.join(out)


def dec_base(b, it):
    if b in SCALARS or b == 'String':
        return bytes.fromhex(next(it)[1:]).decode()
    t = BY[b]
    if t.prim:
        return dec_base(t.prim, it)
    if t.kind == 'struct':
        return tuple(dec_field(f, it) for f in t.fields)
    i = int(next(it)[1:])
    if t.variants[i].named:
        return ('V', i, tuple(dec_field(f, it) for f in t.variants[i].named))
    return ('V', i, dec_field(t.variants[i].payload, it)) if t.variants[i].payload else ('V', i)


def dec_field(f, it):
    if f.wrap == 'plain':
        return dec_base(f.base, it)
    k = next(it)
    if f.wrap == 'opt':
        return None if k == 'N' else ('S', dec_base(f.base, it))
    return [dec_base(f.base, it) for _ in range(int(k[1:]))]


def decode(t, toks):
    it = iter(toks)
    v = dec_base(t.name, it)
    return v


def diff_props(t, a, b):
    """properties touched by the difference between two values of t"""
    if a == b:
        return frozenset()
    p = set()
    if t.kind == 'struct':
        for f, x, y in zip(t.fields, a, b):
            if x != y:
                p |= de_props(t, f)
                if f.base in BY and not f.scalar:
                    xs, ys = fval(f, x), fval(f, y)
                    if len(xs) == len(ys):
                        for u, w in zip(xs, ys):
                            p |= diff_props(BY[f.base], u, w)
                    else:
                        p |= {'C05'} if f.wrap == 'opt' else set()
    elif t.kind == 'enum':
        p |= {'C08', 'C01'}
        if a[1] == b[1] and len(a) > 2:
            f = t.variants[a[1]].payload
            p |= de_props(t, f)
    else:
        p |= {'C16', 'C13', 'C01'}
    return frozenset(p)
