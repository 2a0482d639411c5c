"""Concrete runs of the real code against the specification of oracle.py: replays failed obligations
on the real code, and stands in (bounded) where an obligation is out of the verifier's reach."""
import os
import random
import select
import struct
import subprocess
import tempfile
import time
from corpus import CORPUS, BY, SCALARS
import oracle as O
from oracle import El, Skip, Bad
from verify_ser import props_of
from deser import de_props

HANG = 5.0


class Case:
    __slots__ = ('line', 'kind', 't', 'exp', 'props', 'note')

    def __init__(self, line, kind, t, exp, props, note):
        self.line = line
        self.kind = kind
        self.t = t
        self.exp = exp
        self.props = frozenset(props)
        self.note = note


class Fail:
    def __init__(self, case, what, props):
        self.case = case
        self.what = what
        self.props = frozenset(props)


def cpu(pid):
    """seconds of processor time a process has used"""
    try:
        with open('/proc/%d/stat' % pid) as f:
            x = f.read().rpartition(')')[2].split()
        return (int(x[11]) + int(x[12])) / os.sysconf('SC_CLK_TCK')
    except (OSError, ValueError, IndexError):
        return 1e9


# -- running the replay program ---------------------------------------------------------------------------------
def feed(exe, lines):
    """-> one answer per line; 'hang' and 'crash' are answers too"""
    out = []
    while len(out) < len(lines):
        rest = lines[len(out):]
        with tempfile.TemporaryFile() as f:
            f.write('\n'.join(rest).encode() + b'\n')
            f.flush()
            f.seek(0)
            p = subprocess.Popen(['prlimit', '--as=%d' % (3 << 30), exe], stdin=f, stdout=subprocess.PIPE, stderr=subprocess.DEVNULL)
            buf = b''
            got = 0
            verdict = None
            last, wall = cpu(p.pid), time.time()
            while True:
                r, _, _ = select.select([p.stdout], [], [], HANG)
                if not r:
                    # it must have had the processor that long: a loaded machine is no hang
                    if cpu(p.pid) - last < HANG and time.time() - wall < 20 * HANG:
                        continue
                    verdict = 'hang'
                    break
                last, wall = cpu(p.pid), time.time()
                d = os.read(p.stdout.fileno(), 1 << 20)
                if not d:
                    break
                buf += d
                *done, buf = buf.split(b'\n')
                out += [x.decode('utf-8', 'replace') for x in done]
                got += len(done)
            p.kill()
            p.wait()
            p.stdout.close()
            if got < len(rest):
                out.append(verdict or 'crash')
                if out.count('hang') > 1 or out.count('crash') > 5:
                    out += ['notrun'] * (len(lines) - len(out))
    return out


# -- values --------------------------------------------------------------------------------------------------------
STRS = ['plain', 'no', '', 'no way', 'dflt', 'a b  c', '<&>"\'', '\u00fcn\u00ef\u2603 \U0001f600', ']]', 'true', 'x\ny', '0', '&amp;', '<i>k</i>', '\u00a0nb\u00a0', '#']
FLOATS = {'f32': ['0', '-0', '1.5', '-2.25', '340282350000000000000000000000000000000', '0.1', '16777216', 'inf', '-inf', 'NaN',
                  '0.000000000000000000000000000000000000000000001'],
          'f64': ['0', '-0', '1.5', '-2.25', '0.1', '9007199254740993', 'inf', '-inf', 'NaN', O.canon_float('f64', 1.7976931348623157e308),
                  O.canon_float('f64', 5e-324), O.canon_float('f64', 0.30000000000000004)]}
FLOATS['f64'][5] = O.canon_float('f64', 9007199254740993.0)


def scalar_pool(b):
    if b == 'String':
        return STRS
    if b == 'bool':
        return ['true', 'false']
    if b in FLOATS:
        return FLOATS[b]
    lo, hi = O.INT[b]
    return [str(x) for x in dict.fromkeys([5, 0, 1, lo, hi, 7, 9, 70, -3, -1, 42, hi - 1, lo + 1]) if lo <= x <= hi]


CHARS = list('abzAZ059 #!$%&<>"\'()*+,-./:;=?@[]^_`{|}~') + ['\u00a0', '\u00fc', '\u2028', '\u2603', '\U0001f600', '\t', '\n', '  ', 'true', ' x', '\ufeff', '\u0085', '\u3000', '\u0301']
ROUND = ['1.00000017881393432617187499', '1.00000017881393432617187501', '16777217', '16777219.0000000001', '0.1000000015', '7.0064923216240853e-46', '7.1e-46', '3.4028235677973366e38',
         '3.4028235677973365e38', '1.7976931348623159e308', '2.4703282292062328e-324', '9007199254740993', '1e400', '-1e-400', '.5', '5.', '+.5e1', '1_0', '0x1p3', '1e+2', '1E-2', 'Infinity', '-inf', 'iNf', '1f',
         '12345678901234567890', '-0', '+0', '00', '-00', '+', '1 2', '\u0661', '1.', '000000000000000000000000000000000000000000005', '1\u00a0', '\uff15']


def rand_text(rng, value):
    """a string no list of examples foresees; as a value it must be free of what XML would normalise"""
    n = rng.choice([1, 1, 2, 3, 5, 9])
    s = ''.join(rng.choice(CHARS + ([] if value else ['\r', '\r\n'])) for _ in range(n))
    if value:
        s = s.strip(O.WS).replace(']]>', ']]').replace('\t', ' ')
    return s


def rand_scalar(rng, b):
    if b == 'String':
        return rand_text(rng, True)
    if b in O.INT:
        lo, hi = O.INT[b]
        w = 1 << rng.randrange(1, 65)
        return str(max(lo, min(hi, rng.randrange(-w, w + 1))))
    if b in FLOATS:
        bits = 32 if b == 'f32' else 64
        raw = rng.getrandbits(bits) if rng.random() < 0.5 else struct.unpack('I' if bits == 32 else 'Q', struct.pack('f' if bits == 32 else 'd', rng.randrange(-9999, 9999) / 8))[0]
        x = struct.unpack('f' if bits == 32 else 'd', raw.to_bytes(bits // 8, 'little'))[0]
        return O.canon_float(b, x)
    return rng.choice(['true', 'false'])


def junk(rng):
    k = rng.random()
    return rand_text(rng, False) if k < 0.2 else rng.choice(ROUND) if k < 0.35 else rand_scalar(rng, rng.choice(list(O.INT) + ['f32', 'f64'])) if k < 0.45 else rng.choice(JUNK)


class Gen:
    def __init__(self, rng):
        self.rng = rng

    def base(self, b, depth=0, simple=False):
        """one random value"""
        r = self.rng
        if b in SCALARS or b == 'String':
            p = scalar_pool(b)
            return p[0] if simple else rand_scalar(r, b) if r.random() < 0.3 else r.choice(p)
        t = BY[b]
        if t.prim:
            return self.base(t.prim, depth, simple)
        if t.kind == 'struct':
            return tuple(self.field(f, depth, simple) for f in t.fields)
        i = 0 if simple else r.randrange(len(t.variants))
        v = t.variants[i]
        if v.named:
            return ('V', i, tuple(self.field(f, depth, simple) for f in v.named))
        return ('V', i, self.field(v.payload, depth, simple)) if v.payload else ('V', i)

    def field(self, f, depth=0, simple=False):
        r = self.rng
        if f.wrap == 'plain':
            return self.base(f.base, depth + 1, simple)
        if f.wrap == 'opt':
            return ('S', self.base(f.base, depth + 1, simple)) if simple or r.random() < 0.7 else None
        n = 2 if simple else r.choice([0, 1, 2, 3])
        if depth >= 2:
            n = 0 if depth > 2 else min(n, 1)
        return [self.base(f.base, depth + 1, simple) for _ in range(n)]

    def pool(self, b):
        """a systematic choice of values"""
        if b in SCALARS or b == 'String':
            return scalar_pool(b)
        t = BY[b]
        if t.prim:
            return scalar_pool(t.prim)
        if t.kind == 'enum':
            out = []
            for i, v in enumerate(t.variants):
                if v.named:
                    x = tuple(self.field(f, 0, True) for f in v.named)
                    out += [('V', i, x[:j] + (y,) + x[j + 1:]) for j, f in enumerate(v.named) for y in self.fpool(f)]
                elif v.payload is None:
                    out.append(('V', i))
                else:
                    out += [('V', i, x) for x in self.fpool(v.payload)[:6]]
            return out
        base = self.base(b, 0, True)
        out = [base]
        for i, f in enumerate(t.fields):
            for x in self.fpool(f)[:5]:
                out.append(base[:i] + (x,) + base[i + 1:])
        return list(dict.fromkeys(map(repr, out))) and out

    def fpool(self, f):
        if f.base == 'Tree':
            leaf = ('1', [])
            p = [leaf, ('2', [leaf]), ('3', [('4', [leaf, ('5', [])]), leaf])]
        elif f.base == 'EnRec':
            nil = ('V', 0)
            p = [nil, ('V', 1, [nil]), ('V', 1, [('V', 1, [nil, nil]), nil])]
        else:
            p = self.pool(f.base)
        if f.default and f.wrap == 'plain':
            p = [O.DFLT[f.default]] + [x for x in p if x != O.DFLT[f.default]]
        if f.skip_if == 'Leaf' or f.skip_if == 'FlIn' or f.base == 'Leaf':
            p = [p[0], ('-5', 'neg')] + p[1:] if f.base == 'Leaf' else [p[0], ('-5',) + p[0][1:]] + p[1:]
        if f.wrap == 'plain':
            return p
        if f.wrap == 'opt':
            x = [None] + [('S', y) for y in p]
            return x
        pad = (p * 3)[:3]
        return [[], [p[0]], [pad[0], pad[1]], [pad[1], pad[0], pad[1]], list(p), [p[-1], p[0]], [p[1 % len(p)], pad[0]]]

    def big(self, t):
        """values in which one field is large: many items, a long text"""
        base = self.base(t.name, 0, True)
        out = []

        def one(f):
            if f.wrap == 'vec':
                few = [self.base(f.base, 3) for _ in range(12)]
                return [few[i % 12] for i in range(300)]
            if f.base == 'String':
                x = ' '.join(STRS[i % len(STRS)].strip(O.WS).replace(']]>', '') + 'w%d' % i for i in range(700)).strip()
                return ('S', x) if f.wrap == 'opt' else x
        if t.kind == 'struct':
            for i, f in enumerate(t.fields):
                x = one(f)
                if x is not None:
                    out.append(base[:i] + (x,) + base[i + 1:])
        for i, v in enumerate(t.variants or []):
            x = one(v.payload) if v.payload else None
            if x is not None:
                out.append(('V', i, x))
        return sorted(out, key=lambda v: self.rng.random())[:3]

    def values(self, t, nrand):
        base = self.base(t.name, 0, True)
        out = []
        if t.kind == 'struct':
            out.append(base)
            for i, f in enumerate(t.fields):
                for x in self.fpool(f):
                    out.append(base[:i] + (x,) + base[i + 1:])
        else:
            for i, v in enumerate(t.variants or []):
                if v.named:
                    x = tuple(self.field(f, 0, True) for f in v.named)
                    out += [('V', i, x[:j] + (y,) + x[j + 1:]) for j, f in enumerate(v.named) for y in self.fpool(f)]
                elif v.payload is None:
                    out.append(('V', i))
                else:
                    out += [('V', i, x) for x in self.fpool(v.payload)]
            if t.prim:
                out += scalar_pool(t.prim)
        for _ in range(nrand):
            out.append(self.base(t.name))
        seen, res = set(), []
        for v in out:
            k = repr(v)
            if k not in seen:
                seen.add(k)
                res.append(v)
        return res


# -- documents -----------------------------------------------------------------------------------------------------
def build(t, v, local, ns):
    """a document that gives t the value v"""
    el = El(local, ns)
    fill(t, v, el)
    return el


def fill(t, v, el):
    if t.kind == 'prim':
        if v:
            el.kids.append(('t', '%02X' % int(v) if t.hex else v))
        return
    if t.kind == 'struct':
        for f, x in zip(t.fields, v):
            xs = O.fval(f, x)
            if f.role == 'attr':
                if xs:
                    try:
                        el.attrs.append((f.label, ' '.join(O.attr_text(f.base, y) for y in xs)))
                    except Skip:
                        pass
            elif f.role == 'text':
                for y in xs:
                    if y:
                        el.kids.append(('t', y))
            elif f.role == 'flatten':
                for y in xs:
                    fill(BY[f.base], y, el)
            else:
                for y in xs:
                    k = El(f.label, t.uri(f))
                    if f.scalar:
                        if y:
                            k.kids.append(('c' if f.role == 'cdata' and y == y.strip() and ']]>' not in y else 't', y))
                    else:
                        fill(BY[f.base], y, k)
                    el.kids.append(k)
        return
    var = t.variants[v[1]]
    if t.tag:
        el.attrs.append((t.tag, var.label))
    elif var.payload is None:
        if t.flatten:
            el.kids.append(El(var.label, '', [], [], True))
        else:
            el.kids.append(('t', var.label))
    else:
        f = var.payload
        for y in O.fval(f, v[2]):
            k = El(var.label, t.namespaces.get(var.prefix, '') if var.prefix else '')
            if f.scalar:
                if y:
                    k.kids.append(('t', y))
            else:
                fill(BY[f.base], y, k)
            el.kids.append(k)


def root_name(t):
    return 'host' if t.flatten else t.name if t.prim else t.root


def root_ns(t):
    return t.own_uri or ''


def nodes(el, path=()):
    out = [(path, el)]
    for i, k in enumerate(el.kids):
        if isinstance(k, El):
            out += nodes(k, path + (i,))
    return out


JUNK = ['zz', '12x', '', '-', '1e', 'TRUE', ' ', '--5', '999999999999999999999', '256', '-129', '65536', '-1', '3.5', '0x10', '1', '0', '+4', '005', 'True', 'yes', 'NaN', '1.0', '1e2', ' 8 ']
NSS = ['', 'http://ex.org/a', 'http://ex.org/b', 'http://other']


def names_of(t, seen=()):
    out = [t.root, t.name]
    if t.kind == 'struct':
        for f in t.fields:
            out.append(f.label)
            if f.role == 'flatten' and f.base not in seen:
                out += names_of(BY[f.base], seen + (f.base,))
    else:
        out += [v.label for v in t.variants or []]
    return out


def attr_names(t):
    if t.kind == 'struct':
        out = [f.label for f in t.fields if f.role == 'attr']
        for f in t.fields:
            if f.role == 'flatten':
                out += attr_names(BY[f.base])
        return out
    return [t.tag] if t.tag else []


def lookalike(rng, t, el, depth=0):
    """an element full of things that belong elsewhere"""
    k = El(rng.choice(['zzz', 'unknown', t.root + 'x']), rng.choice(['', '', 'http://other']))
    k.attrs = [(a, '77') for a in dict.fromkeys(attr_names(t))]
    for n in dict.fromkeys(names_of(t)):
        if rng.random() < 0.6:
            k.kids.append(El(n, rng.choice(NSS[:3]), [], [('t', rng.choice(['33', 'zz', 'true']))]))
    for c in el.els():
        if rng.random() < 0.6:
            k.kids.append(c.copy())
    if depth < 2 and rng.random() < 0.5:
        k.kids.append(El(k.local, k.ns, [], [lookalike(rng, t, el, depth + 1)]))
    if rng.random() < 0.4:
        k.kids.append(('t', 'stray'))
    rng.shuffle(k.kids)
    return k


def field_for(t, k):
    """the type of a child element, when it is a nested one"""
    if t.kind == 'struct':
        for f in t.fields:
            if f.role in ('elem', 'cdata') and f.label == k.local and t.uri(f) == k.ns:
                return None if f.scalar else BY[f.base]
            if f.role == 'flatten':
                r = field_for(BY[f.base], k)
                if r is not None:
                    return r
    elif t.kind == 'enum':
        for v in t.variants:
            if v.label == k.local and v.payload and not v.payload.scalar:
                return BY[v.payload.base]
    return None


def mutate(rng, t, el):
    """one change in place -> property tags"""
    ms = ['drop', 'dup', 'move', 'shuffle', 'insert', 'insert', 'ns', 'junk', 'junk', 'inside', 'nestdown', 'nestdown', 'noise', 'attrdrop', 'attrjunk', 'attradd', 'rename', 'rootns', 'text',
          'empty', 'ownname', 'wrapchild', 'childattr', 'spill']
    els = [i for i, k in enumerate(el.kids) if isinstance(k, El)]
    for _ in range(20):
        m = rng.choice(ms)
        if m in ('drop', 'dup', 'move', 'ns', 'rename', 'wrapchild', 'childattr', 'nestdown', 'spill') and not els:
            continue
        i = rng.choice(els) if els else None
        k = el.kids[i] if els else None
        if m == 'drop':
            del el.kids[i]
            return {'C05', 'C03'}
        if m == 'dup':
            c = k.copy()
            if not c.els() and rng.random() < 0.6:
                c.kids = [('t', rng.choice(['5', 'other', '0', 'zz']))]
            el.kids.insert(rng.randrange(len(el.kids) + 1), c)
            return {'C03'}
        if m == 'move':
            el.kids.insert(rng.randrange(len(el.kids)), el.kids.pop(i))
            return {'C03'}
        if m == 'shuffle' and len(els) > 1:
            rng.shuffle(el.kids)
            return {'C03'}
        if m == 'insert':
            el.kids.insert(rng.randrange(len(el.kids) + 1), lookalike(rng, t, el))
            return {'C03', 'C17'}
        if m == 'ns':
            k.ns = rng.choice(NSS)
            return {'C07'}
        if m == 'junk':
            leaves = [x for x in els if not el.kids[x].els()]
            if not leaves:
                continue
            k = el.kids[rng.choice(leaves)]
            s = junk(rng)
            k.kids = [('t', s)] if s else []
            k.empty = rng.random() < 0.5
            return {'C13', 'C05'}
        if m == 'inside':
            leaves = [x for x in els if not el.kids[x].els()]
            if not leaves:
                continue
            k = el.kids[rng.choice(leaves)]
            inner = El(rng.choice(names_of(t) + [k.local, 'b']), k.ns, [], [('t', rng.choice(['5', 'in', 'true']))] if rng.random() < 0.7 else [])
            k.kids.insert(rng.randrange(len(k.kids) + 1), inner)
            return {'C03', 'C17', 'C13'}
        if m == 'nestdown':
            u = field_for(t, k)
            if u is None:
                continue
            return mutate(rng, u, k)
        if m == 'noise':
            for _ in range(rng.randrange(1, 4)):
                el.kids.insert(rng.randrange(len(el.kids) + 1), rng.choice([('m', ' c <x> '), ('p', 'pi data'), ('t', '\n  '), ('t', ' \t')]))
            return {'C03', 'C14', 'C11'}
        if m == 'attrdrop' and el.attrs:
            el.attrs.pop(rng.randrange(len(el.attrs)))
            return {'C04', 'C05'}
        if m == 'attrjunk' and el.attrs:
            j = rng.randrange(len(el.attrs))
            s = rng.choice(['1 2 3', ' 4\t5 ', '1\u00a02', '7 zz', '5\r\n6']) if rng.random() < 0.2 else junk(rng)
            el.attrs[j] = (el.attrs[j][0], s)
            return {'C04', 'C13'}
        if m == 'attradd':
            have = {a.split(':')[-1] for a, _ in el.attrs}
            n = [x for x in ['extra', 'data'] + names_of(t) if x not in have]
            if not n:
                continue
            el.attrs.insert(rng.randrange(len(el.attrs) + 1), (rng.choice(n), rng.choice(['5', 'q', 'true'])))
            return {'C04'}
        if m == 'rename':
            k.local = rng.choice(names_of(t) + [k.local + '2', k.local.upper(), k.local[:-1] or 'q'])
            return {'C03', 'C08'}
        if m == 'rootns':
            el.ns = rng.choice(NSS)
            return {'C07'}
        if m == 'text':
            s = rng.choice(['txt', 'true', '5', 'a<b', 'Red', 'A', 'bee', ' pad ', 'a\r\nb', '#x'] + [v.label for v in t.variants or []]) if rng.random() < 0.7 else rand_text(rng, False)
            if not s:
                continue
            if any(not isinstance(x, El) for x in el.kids) and rng.random() < 0.7:
                el.kids = [x for x in el.kids if isinstance(x, El)]
            el.kids.insert(rng.randrange(len(el.kids) + 1), (rng.choice('ttc'), s))
            return {'C14', 'C08', 'C03'}
        if m == 'empty':
            if rng.random() < 0.3:
                el.kids = []
                el.empty = True
                return {'C05', 'C03', 'C14'}
            leaves = [x for x in els if not el.kids[x].els()]
            if leaves:
                k = el.kids[rng.choice(leaves)]
                k.kids = []
                k.empty = rng.random() < 0.5
                return {'C13', 'C05', 'C14'}
        if m == 'ownname':
            c = El(el.local, el.ns, [], [('t', '5')] if rng.random() < 0.5 else [x.copy() for x in el.els()])
            el.kids.insert(rng.randrange(len(el.kids) + 1), c)
            return {'C17', 'C03', 'C08'}
        if m == 'spill':
            # what belongs to the parent, inside a child, after something with the child's own name
            u = field_for(t, k)
            own = El(k.local, k.ns, [], [], rng.random() < 0.5)
            if rng.random() < 0.3:
                own.kids = [x.copy() for x in k.els()[:1]]
            rest = [x.copy() for x in el.els() if x is not k]
            for n in names_of(t):
                if rng.random() < 0.4:
                    rest.append(El(n, rng.choice([k.ns, '']), [], [('t', rng.choice(['5', 'true']))]))
            rng.shuffle(rest)
            if u is not None and u.kind == 'enum' or rng.random() < 0.3:
                k.kids = []
            k.kids = (k.kids + [own] if rng.random() < 0.6 else [own] + k.kids) + rest[:3]
            k.empty = False
            return {'C17', 'C03'}
        if m == 'wrapchild':
            el.kids[i] = El(rng.choice(['wrap', k.local, el.local]), k.ns, [], [k])
            return {'C03', 'C17'}
        if m == 'childattr':
            have = {a for a, _ in k.attrs}
            for a in dict.fromkeys(attr_names(t) + ['x']):
                if a not in have:
                    k.attrs.append((a, '66'))
            return {'C04', 'C17'}
    return set()


def near(s):
    """texts that are almost s"""
    return list(dict.fromkeys(x for x in ('\u00a0' + s, s + '\u00a0', s + '\u3000', s.upper(), s.lower(), s.capitalize(), s + 'x', s[:-1], '+' + s, '0' + s, s + '.0', s + ' ' + s, '\ufeff' + s, s + '\u200b', s.replace('_', '-'))
                              if x != s))


def enum_contents(u):
    """what may stand in an enum's element besides a variant's proper content"""
    ls = [v.label for v in u.variants][:6]
    for i, v in enumerate(u.variants[:6]):
        yield [('t', v.label)]
        yield [El('unknown', '', [], [('t', v.label)]), ('t', v.label)]
        yield [('t', v.label), El('unknown', '', [], [El(v.label)])]
        if v.payload is None:
            o = ls[i - 1]
            yield [El(v.label, '', [], [('t', o)])]
            yield [El(v.label, '', [], [El(o), ('t', o)])]
            yield [El(v.label, '', [], [El(o, '', [], [('t', '5')]), El(v.label)])]


def pieces(s):
    """the same text, written in several pieces"""
    if ']]>' in s:
        return
    i = (len(s) + 1) // 2
    a, b = s[:i], s[i:]
    yield [('t', a), ('m', 'c'), ('t', b)]
    yield [('m', 'c'), ('t', s), ('m', 'c')]
    yield [('t', a), ('c', b)]
    yield [('c', a), ('m', 'c'), ('c', b)]


def near_ns(ns):
    """Namespaces that are not ns although something like it."""
    if not ns:
        return [' ', 'ns']
    return [ns + ' ', ' ' + ns, ns + '/', ns[:-1], ns.upper(), ns.lower(), ns + ns, ns + '#', ns.rstrip('/#'), '']


def deep(el, n):
    for _ in range(n):
        el = El('unknown', '', [], [el])
    return el


def systematic(t, d0):
    other = {'true': 'false'}
    for ns in near_ns(d0.ns):
        if ns != d0.ns:
            d = d0.copy()
            d.ns = ns
            yield d, {'C07'}
    if t.kind == 'enum' and not t.flatten:
        for kids in enum_contents(t):
            d = d0.copy()
            d.kids, d.empty = kids, False
            yield d, {'C08', 'C17'}
    for j, (n, v) in enumerate(d0.attrs):
        d = d0.copy()
        del d.attrs[j]
        yield d, {'C04', 'C05'}
        for s in near(v) + [' ' + v, v + ' ', '']:
            d = d0.copy()
            d.attrs[j] = (n, s)
            yield d, {'C04', 'C13'}
    for i, k in enumerate(d0.kids):
        if isinstance(k, El):
            if not k.els() and len(k.kids) == 1 and not isinstance(k.kids[0], El):
                for s in near(k.kids[0][1]):
                    d = d0.copy()
                    d.kids[i].kids = [('t', s)] if s else []
                    yield d, {'C13', 'C08'}
                for ks in pieces(k.kids[0][1]):
                    d = d0.copy()
                    d.kids[i].kids = ks
                    yield d, {'C13', 'C03', 'C11', 'C08'}
        else:
            for s in near(k[1]):
                d = d0.copy()
                d.kids[i] = (k[0], s)
                yield d, {'C08'} if t.kind == 'enum' else {'C14', 'C13'}
            for ks in pieces(k[1]):
                d = d0.copy()
                d.kids[i:i + 1] = ks
                yield d, {'C11', 'C08'} if t.kind == 'enum' else {'C14', 'C13', 'C11'}
    for i, k0 in enumerate(d0.kids):
        if not isinstance(k0, El):
            continue
        sib = {}
        for x in d0.els():
            if x.local != k0.local or x.ns != k0.ns:
                sib.setdefault((x.local, x.ns), x)
        u = field_for(t, k0)

        def at(i=i):
            d = d0.copy()
            return d, d.kids[i]
        d, k = at()
        del d.kids[i]
        yield d, {'C05', 'C03'}
        for s in ('', '5', 'zz', '1', 'Red'):
            d, k = at()
            k.kids, k.empty = ([('t', s)] if s else []), False
            yield d, {'C05', 'C13', 'C03'}
        if i == 0:
            d, k = at()
            d.kids.insert(0, deep(k.copy(), 300))
            yield d, {'C03', 'C10', 'C11', 'C17'}
        for ns in near_ns(k0.ns):
            if ns != k0.ns:
                d, k = at()
                k.ns = ns
                yield d, {'C07', 'C03'}
        for ns in NSS:
            if ns != k0.ns:
                d, k = at()
                k.ns = ns
                yield d, {'C07', 'C03'}
                d, k = at()
                c = k.copy()
                c.ns = ns
                d.kids.insert(0 if ns else len(d.kids), c)
                yield d, {'C07', 'C03'}
        for a in dict.fromkeys(attr_names(t)):
            if a not in {n.split(':')[-1] for n, _ in k0.attrs}:
                d, k = at()
                k.attrs.append((a, '66'))
                yield d, {'C04', 'C17'}
        if u is not None and u.kind == 'enum' and not u.flatten:
            for kids in enum_contents(u):
                d, k = at()
                k.kids, k.empty = kids, False
                yield d, {'C08', 'C17'}
        for where in (0, len(d0.kids)):
            d, k = at()
            d.kids.insert(where, El('unknown', '', [], [k.copy(), El('unknown', '', [], [k.copy()]), k.copy()]))
            yield d, {'C03', 'C17'}
            d, k = at()
            d.kids.insert(where, El(k.local, 'http://other', [], [k.copy()]))
            yield d, {'C03', 'C07'}
            d, k = at()
            c = k.copy()
            if not c.els():
                c.kids = [('t', other.get(''.join(x[1] for x in c.kids), '3'))]
            d.kids.insert(where, c)
            yield d, {'C03'}
        for x in list(sib.values())[:4] + [El(d0.local, d0.ns), El(k0.local, k0.ns)]:
            for own in (None, El(k0.local, k0.ns), El('unknown'), El(d0.local, d0.ns)):
                d, k = at()
                if u is not None and u.kind == 'enum' or not k.els():
                    k.kids = []
                k.empty = False
                k.kids = ([own.copy()] if own else []) + ([] if own else k.kids) + [x.copy()] + (k.kids if own else [])
                if x.local != k0.local:
                    d2 = d.copy()
                    d2.kids = [y for j, y in enumerate(d2.kids) if j == i or not (isinstance(y, El) and y.local == x.local)]
                    yield d2, {'C17', 'C03'}
                yield d, {'C17', 'C03', 'C08' if u is not None and u.kind == 'enum' else 'C03'}


# -- cases ----------------------------------------------------------------------------------------------------------
def flat(t):
    return t.kind == 'struct' and any(f.role == 'flatten' or f.base in BY and flat(BY[f.base]) for f in t.fields if f.base != t.name)


def kindprops(t):
    if t.kind == 'prim':
        return {'C16', 'C01'}
    if t.kind == 'enum':
        return {'C08'}
    return {'C03'} | ({'C09'} if any(f.role == 'flatten' for f in t.fields) else set()) | ({'C09'} if t.flatten else set())


def allprops(t):
    p = set(props_of(t)) - {'C12'} | kindprops(t)
    for f in t.fields or []:
        p |= de_props(t, f)
    return p


def oracle_de(t, el, top):
    """expected result: ('ok', v) | ('err', props) | None when unspecified"""
    try:
        return ('ok', O.de(t, el, top))
    except Bad as b:
        return ('err', b.props)
    except Skip:
        return None


def hexs(s):
    return 'x' + (s if isinstance(s, bytes) else s.encode()).hex()


def follow(t):
    """what stands after a nested value: look-alikes of everything in it"""
    out = []
    for f in t.fields or []:
        if f.role in ('elem', 'cdata'):
            out.append(El(f.label, t.uri(f), [], [('t', '6')]))
    for v in t.variants or []:
        out.append(El(v.label, '', [], [('t', '6')]))
    out.append(El(root_name(t), root_ns(t), [(a, '6') for a in dict.fromkeys(attr_names(t))], []))
    return out


def evs(el):
    """events the cursor delivers for an element"""
    out = ['S:%s:%s:%s' % (el.local, el.ns, ','.join(sorted('%s=%s' % (k, v.encode().hex()) for k, v in el.attrs)))]
    cur = ''
    for k in el.kids + [None]:
        if k is not None and not isinstance(k, El):
            if k[0] in 'tc':
                cur += k[1]
                continue
            if cur.strip(O.WS):
                raise Skip('interrupted')
            continue
        if cur.strip(O.WS):
            out.append('C:' + cur.strip(O.WS).encode().hex())
        cur = ''
        if k is not None:
            out += evs(k)
    out.append('E:%s:%s' % (el.local, el.ns))
    return out


def cases(t, seed, scale):
    rng = random.Random('%s/%s' % (seed, t.name))
    g = Gen(rng)
    vals = g.values(t, int(12 * scale))
    out = []
    add = lambda *a: out.append(Case(*a))
    stats = {'unspecified': 0}
    for v in g.big(t):
        note = 'a value of %s with a large field, %r...' % (t.name, repr(v)[:200])
        e = O.encode(t, v)
        try:
            if t.ser and not t.flatten:
                add('ser %s - %s' % (t.name, e), 'ser', t, O.emit(t, v, False, None), set(), 'to_string of ' + note)
            if t.de:
                d = build(t, v, root_name(t), root_ns(t))
                for i in (0, 1):
                    exp = oracle_de(t, d, True)
                    txt = O.write(d)
                    if exp is not None and 'xmlns=""' not in txt:
                        add('de %s %s' % (t.name, hexs(txt)), 'de', t, exp, {'C01'}, note + ('' if not i else ', 300 unknown elements in front'))
                        if not i and t.ser and exp == ('ok', v) and 'NaN' not in repr(v) and not t.flatten and rt_ok(t, v):
                            add('rt %s %s' % (t.name, e), 'rt', t, v, {'C01'}, 'round trip of ' + note)
                    if t.kind != 'struct' or i:
                        break
                    d = d.copy()
                    d.kids[:0] = [El('unknown%d' % j, None, [], []) for j in range(300)]
        except Skip:
            pass
    if t.ser:
        for v in vals:
            e = O.encode(t, v)
            note = 'to_string of %s %r' % (t.name, v)
            try:
                spec = O.emit(t, v, False, None)
            except Skip:
                spec = None
            if spec is not None:
                if not t.flatten:
                    add('ser %s - %s' % (t.name, e), 'ser', t, spec, set(), note)
                add('named %s given %s' % (t.name, e), 'named', t, O.emit(t, v, False, 'given'), set(), note + ' under the name <given>')
            try:
                add('content %s - %s' % (t.name, e), 'content', t, O.emit(t, v, True, None), {'C15'}, 'to_string_content of %s %r' % (t.name, v))
            except Skip:
                pass
        for v in vals[:1] + rng.sample(vals, min(len(vals), int(3 * scale))):
            e = O.encode(t, v)
            try:
                spec = O.emit(t, v, False, None)
            except Skip:
                continue
            if not t.flatten:
                for cfg in ('0:0:-', '1:1:-', '1:0:09', '0:1:2020', '1:1:2020202020'):
                    add('cfg %s %s %s' % (t.name, cfg, e), 'cfg', t, (spec, cfg), {'C15'}, 'to_string_with_config(%s) of %s %r' % (cfg, t.name, v))
            add('fail %s - %s' % (t.name, e), 'fail', t, None, {'C12'}, 'writer failing while %s %r is serialized' % (t.name, v))
    if t.de:
        rn, rns = root_name(t), root_ns(t)
        docs = []
        for i, v in enumerate(vals):
            d = build(t, v, rn, rns)
            docs.append(d)
            exp = oracle_de(t, d, True)
            if exp is None:
                stats['unspecified'] += 1
                continue
            txt = O.write(d, i % 2)
            if flat(t) and 'xmlns=""' in txt:
                txt = O.write(d, 0)
            add('de %s %s' % (t.name, hexs(txt)), 'de', t, exp, {'C01'}, txt)
            if t.ser and exp == ('ok', v) and 'NaN' not in repr(v) and not t.flatten and rt_ok(t, v):
                add('rt %s %s' % (t.name, O.encode(t, v)), 'rt', t, v, {'C01'}, 'round trip of %s %r' % (t.name, v))
        # changed documents
        n = int(220 * scale)
        for i in range(n):
            d = rng.choice(docs).copy()
            tags = set()
            for _ in range(rng.choice([1, 1, 1, 2, 3])):
                tags |= mutate(rng, t, d)
            exp = oracle_de(t, d, True)
            txt = O.write(d, rng.randrange(2))
            if flat(t) and 'xmlns=""' in txt:
                txt = O.write(d, 0)      # known finding C09-undeclared-default-namespace
            if rng.random() < 0.1:
                txt = rng.choice(['<?xml version="1.0"?>', '<!-- x -->', '<?pi?>', '\n', '<!DOCTYPE x>']) + txt + rng.choice(['', '<!-- y -->', '\n'])
            add('de %s %s' % (t.name, hexs(txt)), 'de' if exp is not None else 'dx', t, exp, tags | {'C10'} if exp is None else tags, txt)
            if i % 3 == 0:
                nested_case(add, rng, t, d, tags)
        for d in docs[:40]:
            nested_case(add, rng, t, d, set())
        # one change at every place
        rich = sorted(docs, key=lambda d: -len({k.local for k in d.els()}))[:2] + docs[:1]
        for d0 in dict.fromkeys(rich):
            for d, tags in systematic(t, d0):
                exp = oracle_de(t, d, True)
                if exp is not None:
                    txt = O.write(d)
                    add('de %s %s' % (t.name, hexs(txt)), 'de', t, exp, tags, txt)
        # defects of the input
        for d in rng.sample(docs, min(len(docs), int(4 * scale))) + docs[:2]:
            txt = O.write(d)
            cuts = [i for i, c in enumerate(txt) if c in '<>']
            for i in (cuts if len(cuts) <= 60 else rng.sample(cuts, 60)):
                p = {'C10'} | ({'C12'} if t.kind != 'prim' else set())
                add('de %s %s' % (t.name, hexs(txt[:i])), 'trunc' if t.kind != 'prim' else 'dx', t, ('err', {'C12', 'C10'}), p, txt[:i])
            b = txt.encode()
            for i in sorted(set(rng.sample(range(len(b)), min(len(b), 12)) + [len(b) - 1])):
                add('defail %s %d %d %s' % (t.name, rng.choice([1, 3, 50]), i, hexs(b)), 'trunc' if t.kind != 'prim' else 'dx', t, ('err', {'C12'}), {'C12'}, 'reader failing after %d bytes of %s' % (i, txt))
        for i in range(int(60 * scale)):
            b = bytearray(O.write(rng.choice(docs)).encode())
            for _ in range(rng.choice([1, 1, 2, 5])):
                k = rng.random()
                j = rng.randrange(len(b) + 1)
                if k < 0.3 and b:
                    del b[j:j + rng.randrange(1, 6)]
                elif k < 0.6:
                    b[j:j] = rng.choice([b'<', b'>', b'</', b'/>', b'&', b'<a>', b'</a>', b'<![CDATA[', b']]>', b'\xff', b'\x00', b'<!--', b'-->', b'"', b'&#0;', b'<?', b'='])
                elif b:
                    b[j % len(b)] = rng.randrange(256)
            add('de %s %s' % (t.name, hexs(bytes(b))), 'dx', t, None, {'C10'}, repr(bytes(b)))
        for txt in ['', ' ', '<', '<a', '<a/>', '<a></b>', 'x', '<a/><b/>', '<?xml?>', '<a>&z;</a>', '<%s/>' % rn, '<%s></%s>' % (rn, rn), '<%s><%s/></%s>' % (rn, rn, rn), '<!-- -->',
                    '<a>' * 200, '<%s>' % rn * 50, '<a>' * 50 + '</a>' * 50]:
            add('de %s %s' % (t.name, hexs(txt)), 'dx', t, None, {'C10'}, txt)
        # nothing but the nesting of T itself may use up the stack
        d = max(docs, key=lambda d: len(d.els()))
        base = O.write(d)
        for nm in ['unknown', rn] + sorted({f.label for f in t.fields or []} | {v.label for v in t.variants or []})[:2] if not t.recursive else ['unknown']:
            where = [i + 1 for i, c in enumerate(base) if c == '>' and base[i - 1] not in '/?-]'][:1]
            for w in where:
                add('deep %s %s %s %s 1000' % (t.name, hexs(base[:w]), hexs(nm), hexs(base[w:])), 'dx', t, None, {'C10'}, 'a document with <%s> nested 1000 deep at byte %d of %s, deserialized with 128 KiB of stack' % (nm, w, base))
        # names in unusual places
        more = []
        for l in sorted({f.label for f in t.fields or []} | {v.label for v in t.variants or []})[:8]:
            more += [x.replace('L', l).replace('R', rn) for x in (
                '<L/>', '<L>x</L>', '<L><L/></L>', '<R><L/></R>', '<R>x<L>y</L>z</R>', '<R>L</R>', '<R><L>L</L><L/></R>', '<L><R/></L>', '<R><x>L</x></R>', '<R>L<L/></R>',
                '<R><L><L><x/></L></L></R>', '<R><L/>L</R>', '<R><L>1<x/>2</L></R>', '<R L="L"/>')]
            for d in rng.sample(docs, min(len(docs), 2)):
                d = d.copy()
                d.local = l
                more.append(O.write(d))
        for txt in more:
            add('de %s %s' % (t.name, hexs(txt)), 'dx', t, None, {'C10'}, txt)
    return out, stats


def rt_ok(t, v):
    """the documented round trip: what the specification writes is read back as v by the specification"""
    try:
        root = spec_tree(O.emit(t, v, False, None))
        return root is not None and O.de(t, root, True) == v
    except (Skip, Bad):
        return False


def spec_tree(ev):
    """the document the specified events form"""
    stack, scopes, root = [], [{}], None
    for e in ev:
        if e[0] == 'S':
            sc = dict(scopes[-1])
            sc.update(e[3])
            p, _, l = e[1].rpartition(':')
            if p and p not in sc:
                return None
            el = El(l, sc.get(p, ''), [(k, w) for k, w, _ in e[2]])
            if stack:
                stack[-1].kids.append(el)
            elif root is None:
                root = el
            else:
                return None
            stack.append(el)
            scopes.append(sc)
        elif e[0] == 'E':
            stack.pop()
            scopes.pop()
        elif e[1]:
            if not stack:
                return None
            if e[0] == 'D' and ']]>' in e[1]:
                return None
            if e[1] != e[1].strip():
                return None
            stack[-1].kids.append(('t' if e[0] == 'C' else 'c', e[1]))
    return root


def nested_case(add, rng, t, d, tags):
    exp = oracle_de(t, d, False)
    if exp is None:
        return
    w = El('w', '', [('k', '1')], [d] + (follow(t) if rng.random() < 0.8 else []))
    if rng.random() < 0.3:
        w.kids.append(('t', 'tail'))
    try:
        if t.kind == 'prim' and d.els():
            return
        rest = ['E:%s:%s' % (d.local, d.ns)]
        for x in evs(w)[1 + len(evs(d)):]:
            rest.append(x)
    except Skip:
        return
    txt = O.write(w)
    add('nest %s 9999999 %s' % (t.name, hexs(txt)), 'nest', t, (exp, rest), tags | {'C17'}, 'one %s inside %s' % (t.name, txt))


# -- judging ----------------------------------------------------------------------------------------------------------
def unh(s):
    return bytes.fromhex(s).decode('utf-8', 'replace')


def judge(c, ans):
    """-> (what, props) or None"""
    t = c.t
    if ans == 'notrun':
        return None
    if ans in ('hang', 'crash') or ans.startswith('panic'):
        what = {'hang': 'does not return', 'crash': 'crashes'}.get(ans) or 'panics: ' + unh(ans[6:])
        p = {'C10'} if c.kind in ('de', 'dx', 'trunc', 'nest', 'rt') else set()
        if c.kind in ('de', 'nest', 'rt', 'ser', 'named', 'content', 'cfg') and c.exp is not None:
            p |= set(c.props)
            if t is not None:
                p |= allprops(t) if c.kind == 'rt' or 'C01' in c.props else set()
        if c.kind in ('ser', 'named', 'content', 'cfg'):
            p |= allprops(t) | {'C02', 'C12'}
        if c.kind in ('fail', 'trunc'):
            p |= {'C12'}
        return what, p
    if c.kind == 'dx':
        return None
    if c.kind in ('de', 'trunc'):
        return judge_de(c, c.exp, ans.split())
    if c.kind == 'nest':
        exp, rest = c.exp
        a, _, b = ans.partition(' | ')
        r = judge_de(c, exp, a.split())
        if r:
            return r[0], set(r[1]) | {'C17'} if exp[0] == 'ok' and not a.startswith('ok') else r[1]
        if exp[0] == 'ok':
            got = b.split()
            if t.kind == 'prim':
                good = got[1:] == rest and got[0] == '1'
            else:
                good = got[0] == '1' and got[1:] == rest
            if not good:
                return 'afterwards the reader delivers %s (depth %s) where %s stands' % (got[1:4], got[0], rest[:3]), {'C17', 'C11'}
        return None
    if c.kind == 'rt':
        p = ans.split()
        if p[0] == 'same':
            return None
        ps = {'C01'} | allprops(t)
        if p[0] == 'sererr':
            return 'to_string fails: ' + unh(p[1]), ps | {'C02'}
        return 'written as %s and read back as %s' % (unh(p[1]), show_de(t, p[2:])), ps
    if c.kind == 'fail':
        a, _, b = ans.partition(' |')
        p = a.split()
        if p[0] != 'ok':
            return 'serialization fails without a fault', {'C12', 'C01', 'C02'}
        if p[2:] or b.split():
            return 'Ok although the writer failed after %s bytes' % (p[2:] + b.split())[:5], {'C12'}
        return None
    if c.kind in ('ser', 'named', 'content'):
        parts = ans.split(' | ')
        if c.kind == 'content' and parts[0] != parts[1]:
            return 'to_string_content and serialize_with_writer_content differ: %s' % parts, {'C15'}
        k, x = parts[0].split(' ', 1)
        if k != 'ok':
            return 'returns Err: ' + unh(x), allprops(t) | {'C02', 'C12', 'C06'}
        x = unh(x)
        extra = set()
        if c.kind == 'content' and O.DECL.match(x):
            return 'content with a declaration: ' + x, {'C15'}
        if c.kind == 'ser' and not O.DECL.match(x):
            return 'no document declaration: ' + x, {'C15'}
        return judge_out(c, c.exp, x, c.kind == 'content')
    if c.kind == 'cfg':
        spec, cfg = c.exp
        ind, decl, istr = cfg.split(':')
        a, b = ans.split(' | ')
        if a != b:
            return 'to_string_with_config and serialize_with_writer differ', {'C15'}
        k, x = a.split(' ', 1)
        if k != 'ok':
            return 'returns Err: ' + unh(x), {'C15', 'C02'}
        x = unh(x)
        if bool(O.DECL.match(x)) != (decl == '1'):
            return 'document declaration is not as configured: ' + x, {'C15'}
        hastext = any(e[0] == 'C' and e[1] != e[1].strip() for e in spec)
        r = judge_out(c, spec, x, True, ind == '1')
        if r:
            return r
        if ind == '1' and nested(spec) and simple(spec):
            s = '  ' if istr == '-' else unh(istr)
            lines = O.DECL.sub('', x).lstrip('\n').split('\n')
            deep = [l for l in lines if l[:1] in ' \t']
            for l in deep:
                w = l[:len(l) - len(l.lstrip(' \t'))]
                if w.replace(s, '') or not w:
                    return 'indented with %r instead of %r' % (w, s), {'C15'}
            if not deep or min(len(l) - len(l.lstrip(' \t')) for l in deep) != len(s):
                return 'not indented by %r: %r' % (s, x), {'C15'}
        if ind == '0' and '\n' in O.DECL.sub('', x).strip() and not any('\n' in e[1] for e in spec if e[0] in 'CD') and '\n' not in repr([e[2] for e in spec if e[0] == 'S']).replace('\\n', '\n'):
            return 'indented although not asked for: %r' % x, {'C15'}
        return None
    if c.kind == 'valerr':
        return None if ans.startswith('err') else ('Ok although the writer failed', c.props)
    if c.kind == 'eq':
        return None if ans == c.exp else ('gives %s, specified %s' % (ans[:300], c.exp[:300]), c.props)
    raise ValueError(c.kind)


def nested(spec):
    return any(a[0] == 'S' and b[0] == 'S' for a, b in zip(spec, spec[1:]))


def simple(spec):
    # character data only inside leaf elements
    if any(e[0] in 'CD' and not (spec[i - 1][0] == 'S' and spec[i + 1][0] == 'E') for i, e in enumerate(spec)):
        return False
    return not any(e[0] in 'CD' and '\n' in e[1] for e in spec) and not any(a[0] in 'CD' and b[0] == 'S' or a[0] == 'E' and b[0] in 'CD' for a, b in zip(spec, spec[1:]))


def judge_out(c, spec, x, content, indent=False):
    try:
        got = O.parse_out(x)
    except O.Malformed as e:
        return 'the output %r is not well formed: %s' % (x, e), {'C02', 'C15' if content else 'C02', 'C14', 'C01'} | allprops(c.t)
    if indent:
        spec = [e for e in O.merge(spec) if not (e[0] == 'C' and not e[1].strip(O.WS))]
        got = [('C', e[1]) if e[0] == 'C' else e for e in got]
        r = O.compare_out(spec, strip_ws(got, spec), True)
    else:
        r = O.compare_out(spec, got)
    if r is None:
        return None
    p = set(r[1])
    if c.kind == 'cfg' or c.kind == 'content':
        p |= {'C15'}
    return '%s in %s' % (r[0], x), p


def strip_ws(got, spec):
    return got


def show_de(t, p):
    if p and p[0] == 'ok':
        return 'Ok %r' % (O.decode(t, p[1:]),)
    return 'Err %r' % unh(p[1] if len(p) > 1 else '')


def judge_de(c, exp, p):
    t = c.t
    if exp[0] == 'err':
        if p[0] == 'err':
            return None
        ps = set(exp[1]) | (set() if c.kind == 'trunc' else set(c.props) - {'C01'})
        return 'returned %s where Err is due' % show_de(t, p), ps
    if p[0] != 'ok':
        ps = set(c.props) | kindprops(t)
        if 'C01' in c.props or not c.props:
            ps |= allprops(t)
        return 'returned %s, specified Ok %r' % (show_de(t, p), exp[1]), ps
    v = O.decode(t, p[1:])
    if v == exp[1]:
        return None
    return 'returned Ok %r, specified Ok %r' % (v, exp[1]), set(O.diff_props(t, v, exp[1])) | set(c.props)


def run_type(exe, t, seed, scale):
    cs, stats = cases(t, seed, scale)
    return judge_all(exe, cs), cs, stats


def judge_all(exe, cs):
    ans = feed(exe, [c.line for c in cs])
    fails = []
    for c, a in zip(cs, ans):
        try:
            r = judge(c, a)
        except (ValueError, IndexError, StopIteration) as e:
            r = 'unexpected answer %r' % a[:200], c.props
        if r:
            fails.append(Fail(c, r[0], r[1]))
    return fails


# -- cases that belong to no derived type -------------------------------------------------------------------------
def general_cases(seed, scale):
    rng = random.Random('%s/general' % seed)
    out = []
    # C13: scalars as values of their own
    for ty in SCALARS + ['char', 'usize', 'isize']:
        if ty == 'String':
            continue
        pool = ['a', '\u00fc', '<', '&'] if ty == 'char' else scalar_pool({'usize': 'u64', 'isize': 'i64'}.get(ty, ty))
        for x in pool:
            body = O.esc(x)
            out.append(Case('val %s - %s 9999' % (ty, hexs(x)), 'eq', None, 'ok %s 0' % body.encode().hex(), {'C13'}, '%s %r serialized as a value' % (ty, x)))
            n = len(body.encode())
            out.append(Case('val %s - %s %d' % (ty, hexs(x), n - 1), 'valerr', None, None, {'C12'}, '%s %r with a writer failing after %d bytes' % (ty, x, n - 1)))
    out.append(Case('dcfg', 'eq', None, 'false true None', {'C15'}, 'Config::default()'))
    # C15: the settings of a serializer are independent of each other
    for i in range(int(60 * scale) + 20):
        name, skip, ops, exp = None, False, [], []
        for _ in range(rng.randrange(1, 7)):
            k = rng.choice('ncst')
            if k == 'n':
                name = rng.choice(['a', 'p:b', ''])
                ops.append('n' + name.encode().hex())
            elif k == 'c':
                name = None
                ops.append('c')
            else:
                skip = k == 's'
                ops.append(k)
            exp.append('%s:%s' % ('true' if skip else 'false', '-' if name is None else 's' + name.encode().hex()))
        out.append(Case('set ' + ' '.join(ops), 'eq', None, ' '.join(exp), {'C15'}, 'setters of a Serializer called in the order %s' % ' '.join(ops)))
    # C11: the cursor
    for i in range(int(1500 * scale)):
        out.append(cursor_case(rng))
    for n in (127, 128, 254, 255, 256, 257, 300, 4000):
        E, txt = ['S:a::'] * n + ['E:a:'] * n, '<a>' * n + '</a>' * n
        for script in ('n' * n + 'd', 'n' * (n + 3) + 'd', 'n' * (n - 1) + 'psd', 'nnnsd', 'n' * n + 'nsd'):
            out.append(cursor_case(rng, (script, E, txt)))
    return [c for c in out if c is not None]


def rand_tree(rng, depth):
    el = El(rng.choice('aab'), rng.choice(['', '', 'http://ex.org/a']), [('k', rng.choice('12'))] if rng.random() < 0.3 else [])
    for _ in range(rng.choice([0, 1, 1, 2, 3]) if depth < 4 else 0):
        k = rng.random()
        if k < 0.5:
            el.kids.append(rand_tree(rng, depth + 1))
        elif k < 0.8:
            if not el.kids or isinstance(el.kids[-1], El):
                el.kids.append((rng.choice('tc'), rng.choice(['x', 'yy', 'z z'])))
        else:
            if not el.kids or isinstance(el.kids[-1], El):
                el.kids.append(rng.choice([('m', 'c'), ('p', 'pi'), ('t', '\n ')]))
    el.empty = rng.random() < 0.5
    return el


def cursor_case(rng, given=None):
    if given:
        script, E, txt = given
    else:
        d = rand_tree(rng, 0)
        try:
            E = evs(d)
        except Skip:
            return None
        script = ''.join(rng.choice('ppnnnndsrRei') for _ in range(rng.randrange(3, 24)))
        txt = rng.choice(['', '<?xml version="1.0"?>', '<!--x-->', '<?pi x?>']) + O.write(d)
    pos, depth, peeked = 0, 0, None
    exp = []
    E = E + ['D']

    def fetch():
        nonlocal pos
        if pos >= len(E):
            raise Skip('past the end')
        pos += 1
        return E[pos - 1]

    def nxt():
        nonlocal peeked, depth
        e, peeked = (peeked, None) if peeked is not None else (fetch(), None)
        if e[0] == 'S':
            depth += 1
        elif e[0] == 'E':
            depth -= 1
        return e
    name = lambda e: e.split(':', 1)[1].split(':', 1)[0]
    used = ''
    ended = False
    try:
        for ch in script:
            keep = (pos, depth, peeked)
            if ch == 'p':
                if peeked is None:
                    peeked = fetch()
                r = peeked
            elif ch == 'n':
                r = nxt()
            elif ch == 'i':
                if peeked is not None:
                    continue
                r = fetch()
                if r[0] in 'SE':
                    pos, depth, peeked = keep
                    continue      # would bypass the depth count
            elif ch == 'd':
                r = str(depth)
            elif ch == 's':
                if depth == 0:
                    continue
                d0, l = depth, []
                while depth >= d0:
                    l.append(nxt())
                r = 'k[%s]' % ';'.join(l)
            elif ch in 'rR':
                e = nxt()
                if e[0] != 'S':
                    r = 'X'
                elif ch == 'R':
                    r = 'X'
                else:
                    x = nxt()
                    if x[0] != 'C':
                        r = 'X'
                    else:
                        y = nxt()
                        r = 'v' + x[2:] if y[0] == 'E' and y[1:].rsplit(':', 0)[0] == ':' + ':'.join(e.split(':', 1)[1].rsplit(':', 1)[:1]) else 'X'
            elif ch == 'e':
                y = nxt()
                r = 'k' if y == 'E:a:' else 'X'
            used += ch
            exp.append(r)
            if 'D' in (r, peeked):
                if r == 'D':
                    break
    except Skip:
        pass
    exp = exp[:len(used)]
    if not used:
        return None
    return Case('cur %s %s' % (used, hexs(txt)), 'eq', None, ''.join(' ' + r for r in exp), {'C11'}, 'cursor script %s on %s' % (used[:80], txt[:400]))
