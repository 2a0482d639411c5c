"""The corpus of derived types the generated code is verified for: one entry per (kind, wrapper,
role, modifier) shape. Each entry also drives the specification (spec.py), the Rust harness the
verifier reads (rustgen.py) and the concrete replay (oracle.py)."""

SCALARS = ['bool', 'i8', 'u8', 'i16', 'u16', 'i32', 'u32', 'i64', 'u64', 'f32', 'f64']


class F:
    """A field (or newtype payload)."""

    def __init__(self, name, base, wrap='plain', role='elem', rename=None, prefix=None, default=None,
                 skip=False, skip_if=None, spell=None):
        self.spell = spell          # how the type is spelled, where that is not its plain name
        self.name = name
        self.base = base
        self.wrap = wrap
        self.role = role            # elem attr text cdata flatten
        self.rename = rename
        self.prefix = prefix
        self.default = default
        self.skip = skip
        self.skip_if = skip_if

    @property
    def label(self):
        return self.rename or (self.name[2:] if self.name.startswith('r#') else self.name)

    @property
    def scalar(self):
        return self.base in SCALARS or self.base == 'String'

    @property
    def rust(self):
        return self.spell or {'plain': '%s', 'opt': 'Option<%s>', 'vec': 'Vec<%s>'}[self.wrap] % self.base


class V:
    """An enum variant: payload None or an F, or named fields."""

    def __init__(self, name, payload=None, rename=None, prefix=None, flatten=False, named=None):
        self.named = named          # the fields of a variant with named fields
        self.name = name
        self.payload = payload
        self.rename = rename
        self.prefix = prefix
        self.flatten = flatten

    @property
    def label(self):
        return self.rename or (self.name[2:] if self.name.startswith('r#') else self.name)


class T:
    def __init__(self, name, fields=None, variants=None, rename=None, prefix=None, default_ns=None, namespaces=None, hex=False, derive=None,
                 flatten=False, tag=None, tags='', prim=None, de=True, ser=True, generic=None, macro=False):
        self.generic = generic      # (parameter, argument): declared generic, used with this argument
        self.macro = macro          # declared by a macro that is given the field types
        self.name = name
        self.fields = fields
        self.variants = variants
        self.rename = rename
        self.prefix = prefix
        self.default_ns = default_ns
        self.namespaces = dict(namespaces or {})
        self.flatten = flatten
        self.tag = tag
        self.tags = set(tags.split())
        self.hex = hex              # HexBinaryYaSerde
        self.derive = derive        # a primitive derived otherwise than by PrimitiveYaSerde
        self.prim = prim            # base type of a primitive newtype
        self.de = de
        self.ser = ser

    @property
    def kind(self):
        return 'prim' if self.prim else 'struct' if self.fields is not None else 'enum'

    @property
    def root(self):
        """Local name of the type's own element."""
        return self.rename or self.name

    @property
    def recursive(self):
        """a value can contain values of its own type to any depth (or contains a type of which this is true)"""
        def walk(t, path):
            if t.name in path:
                return True
            return any(walk(BY[f.base], path | {t.name}) for f in (t.fields or []) + [f for v in t.variants or [] for f in ([v.payload] if v.payload else v.named or [])] if f.base in BY)
        return walk(self, frozenset())

    # -- the documented naming rules
    def pfx(self, prefix):
        """What is written before a name that carries this prefix."""
        return '' if prefix is None or prefix == self.default_ns else prefix + ':'

    @property
    def root_written(self):
        return self.pfx(self.prefix) + self.root

    def written(self, f):
        return self.pfx(f.prefix) + f.label

    def uri(self, f):
        """Namespace a child element must be in to belong to the field ('' for none)."""
        return self.namespaces.get(f.prefix, '') if f.prefix is not None else ''

    @property
    def own_uri(self):
        """Namespace accepted for the own element when it is in one (None: no namespace accepted)."""
        return self.namespaces.get(self.prefix) if self.prefix is not None else None

    @property
    def declared(self):
        """(prefix, uri) declared on the own start tag"""
        return sorted(('' if p == self.default_ns else p, u) for p, u in self.namespaces.items())


def build():
    L = []
    add = L.append

    # -- child types used below
    add(T('Leaf', [F('x', 'i32'), F('k', 'String', role='attr')], tags='C01 C02 C03 C04 C05 C12 C17'))
    add(T('Pair', [F('p', 'u8'), F('q', 'String', 'opt')], tags='C01 C02 C03 C05'))
    add(T('Kind', variants=[V('Red'), V('Green', rename='gr-een'), V('Blue')], rename='kind', tags='C01 C08 C12 C17'))
    add(T('Num', prim='u16', tags='C16'))

    # -- every scalar kind, as plain, Option and Vec element
    for k in SCALARS + ['String']:
        n = k.capitalize()
        add(T('El' + n, [F('a', k), F('b', k, 'opt'), F('c', k, 'vec')], tags='C01 C02 C03 C05 C13 C12' if k in ('i32', 'String') else 'C01 C13'))
        add(T('At' + n, [F('a', k, role='attr'), F('b', k, 'opt', role='attr'), F('c', k, 'vec', role='attr')],
              tags='C01 C04 C05 C13' if k in ('i32', 'String') else 'C04 C13'))

    # -- nested structs, enums, newtypes; order; names
    add(T('Nest', [F('a', 'Leaf'), F('b', 'Leaf', 'opt'), F('c', 'Leaf', 'vec')], tags='C01 C02 C03 C05 C12 C17'))
    add(T('NestEnum', [F('a', 'Kind'), F('b', 'Kind', 'opt'), F('c', 'Kind', 'vec')], tags='C01 C02 C03 C08'))
    add(T('NestNum', [F('a', 'Num'), F('b', 'Num', 'opt'), F('c', 'Num', 'vec')], tags='C01 C02 C16'))
    add(T('Mixed', [F('id', 'u32', role='attr'), F('first', 'String'), F('second', 'Leaf', rename='Second-Item'), F('third', 'i64', 'opt'),
                    F('fourth', 'Pair', 'vec', rename='fth.x')], rename='mixed-up', tags='C01 C02 C03 C04 C05 C12 C17'))
    add(T('Same', [F('same', 'Leaf', rename='same'), F('other', 'i32')], rename='same', tags='C01 C02 C03 C17'))
    add(T('SameText', [F('v', 'String', 'vec', rename='SameText'), F('w', 'Leaf', 'opt', rename='Leaf')], tags='C01 C02 C03 C17'))
    add(T('Tree', [F('v', 'i32', role='attr'), F('kids', 'Tree', 'vec', rename='Tree')], tags='C01 C02 C03 C12 C17'))
    add(T('Swap', [F('b', 'u8', rename='a'), F('a', 'u8', rename='b'), F('c', 'String', role='attr', rename='a')], tags='C01 C02 C03 C04'))
    add(T('Empty', [], tags='C02 C03 C17'))
    add(T('Only', [F('c', 'Leaf', 'vec', rename='item')], rename='list', tags='C01 C02 C03 C17'))

    # -- attributes of compound types
    add(T('AtKind', [F('a', 'Kind', role='attr'), F('b', 'Kind', 'opt', role='attr'), F('c', 'Kind', 'vec', role='attr')], tags='C04 C08'))
    add(T('AtBoth', [F('a', 'i32', role='attr'), F('b', 'i32', rename='a'), F('c', 'Leaf', 'opt')], tags='C01 C03 C04 C17'))
    add(T('AtRen', [F('x', 'String', role='attr', rename='data-x'), F('y', 'String', 'opt', role='attr', rename='Y.y'), F('z', 'String', rename='data-x')],
          tags='C01 C04'))

    # -- defaults and requirement
    add(T('Dflt', [F('a', 'i32', default='i32'), F('b', 'String', default='String'), F('c', 'u8', role='attr', default='u8'), F('d', 'Leaf', default='Leaf')],
          tags='C01 C05 C06'))
    add(T('DfltMix', [F('a', 'i32'), F('b', 'String', default='String'), F('c', 'bool', role='attr'), F('d', 'u8', 'vec')], tags='C05 C06'))
    add(T('DfltAt', [F('a', 'i32', role='attr', default='i32'), F('b', 'String', role='attr', default='String'), F('c', 'bool', default='bool')], tags='C01 C05 C06'))

    # -- omission modifiers
    add(T('Skip', [F('a', 'i32', skip=True, default='i32'), F('b', 'String', skip_if='String'), F('c', 'i32', skip_if='i32', default='i32'), F('d', 'u8')],
          tags='C02 C06'))
    add(T('SkipAt', [F('a', 'i32', role='attr', skip=True), F('b', 'String', role='attr', skip_if='String'),
                     F('c', 'i32', role='attr', skip_if='i32', default='i32'), F('d', 'u8', role='attr')], tags='C04 C06'))
    add(T('SkipAtB', [F('a', 'String', 'opt', role='attr', skip=True), F('b', 'i32', 'opt', role='attr', skip_if='Option<i32>'),
                      F('c', 'u8', 'vec', role='attr', skip_if='Vec<u8>'), F('d', 'String', role='attr', default='String', skip=True)], tags='C04 C06'))
    add(T('SkipOV', [F('a', 'i32', 'opt', skip=True), F('b', 'i32', 'opt', skip_if='Option<i32>'), F('c', 'u8', 'vec', skip_if='Vec<u8>'), F('d', 'u8', 'vec', skip=True)],
          tags='C02 C06'))
    add(T('SkipCh', [F('a', 'Leaf', skip=True), F('b', 'Leaf', 'opt', skip_if='Option<Leaf>'), F('c', 'Leaf', 'vec', skip_if='Vec<Leaf>'), F('d', 'Leaf', skip_if='Leaf')],
          tags='C02 C06'))
    add(T('DfltOV', [F('a', 'i32', 'opt', default='Option<i32>'), F('b', 'u8', 'vec', default='Vec<u8>'), F('c', 'Leaf', 'opt', default='Option<Leaf>')], tags='C06', de=False))
    add(T('SkipDfl', [F('a', 'i32', skip_if='i32', default='i32', role='elem'), F('b', 'i32', skip=True, skip_if='i32', default='i32'),
                      F('c', 'Leaf', skip_if='Leaf', default='Leaf'), F('d', 'Leaf', skip=True, default='Leaf')], tags='C06'))

    # -- text and CDATA content
    add(T('Txt', [F('k', 'i32', role='attr'), F('t', 'String', role='text')], tags='C01 C14 C04'))
    add(T('TxtOpt', [F('k', 'String', 'opt', role='attr'), F('t', 'String', 'opt', role='text')], tags='C01 C14'))
    add(T('TxtElem', [F('t', 'String', 'opt', role='text'), F('e', 'i32', 'opt'), F('f', 'Leaf', 'vec')], tags='C14 C03'))
    add(T('TxtDflt', [F('t', 'String', role='text', default='String')], tags='C14 C05 C06'))
    add(T('TxtSkip', [F('t', 'String', role='text', skip_if='String'), F('e', 'u8')], tags='C14 C06'))
    add(T('TxtOff', [F('t', 'String', 'opt', role='text', skip=True), F('e', 'u8')], tags='C14 C06'))
    add(T('Cd', [F('c', 'String', role='cdata'), F('e', 'i32')], tags='C01 C14'))
    add(T('CdMod', [F('c', 'String', role='cdata', rename='Body', skip_if='String'), F('d', 'String', role='cdata', default='String')], tags='C14 C06'))

    # -- namespaces
    A, B = 'http://ex.org/a', 'http://ex.org/b'
    add(T('NsRoot', [F('x', 'i32', prefix='a'), F('y', 'String', prefix='b'), F('z', 'u8')], prefix='a', namespaces={'a': A, 'b': B}, tags='C01 C02 C03 C07 C12'))
    add(T('NsSame', [F('x', 'i32', prefix='a', rename='v'), F('y', 'i32', prefix='b', rename='v'), F('z', 'i32', rename='v')],
          prefix='b', namespaces={'a': A, 'b': B}, rename='nsroot', tags='C01 C03 C07'))
    add(T('NsDef', [F('x', 'i32', prefix='a'), F('y', 'Leaf', 'vec', prefix='b'), F('k', 'String', role='attr')],
          prefix='a', default_ns='a', namespaces={'a': A, 'b': B}, tags='C01 C02 C04 C07'))
    add(T('NsAt', [F('x', 'String', role='attr', prefix='b'), F('y', 'u8', 'opt', role='attr', prefix='a', rename='why'), F('z', 'i32', 'vec', role='attr')],
          prefix='b', default_ns='a', namespaces={'a': A, 'b': B}, tags='C04 C07'))
    add(T('NsNone', [F('x', 'i32'), F('y', 'Leaf', 'opt')], namespaces={'a': A}, tags='C03 C07'))
    add(T('NsOpt', [F('x', 'i32', 'opt', prefix='a'), F('y', 'Leaf', prefix='a'), F('z', 'Leaf', 'opt', prefix='b', rename='y')],
          prefix='a', namespaces={'a': A, 'b': B}, tags='C03 C07'))
    add(T('NsCd', [F('c', 'String', role='cdata', prefix='a'), F('e', 'i32', 'vec', prefix='b', rename='c')],
          prefix='a', default_ns='b', namespaces={'a': A, 'b': B}, tags='C07 C14'))

    # -- enums
    add(T('Unit', variants=[V('A'), V('B', rename='bee'), V('Bee'), V('C', rename='A2')], rename='unit', tags='C01 C08 C12 C17'))
    add(T('UnitB', variants=[V('X', rename='Y'), V('Y', rename='X')], tags='C01 C08'))
    for i, ks in enumerate((('i32', 'String', 'bool'), ('u8', 'i64', 'f64'), ('i8', 'u16', 'f32'), ('i16', 'u32', 'u64'))):
        add(T('En%d' % i, variants=[V('None_', rename='none')] + [V('V' + k.capitalize(), F('0', k)) for k in ks], tags='C01 C08 C13 C12 C17' if i == 0 else 'C01 C08 C13'))
    add(T('EnCh', variants=[V('Nil'), V('One', F('0', 'Leaf')), V('Two', F('0', 'Pair'), rename='deux'), V('Col', F('0', 'Kind'))], tags='C01 C08 C12 C17 C04'))
    add(T('EnOpt', variants=[V('Nil'), V('Str', F('0', 'String', 'opt')), V('Int', F('0', 'i32', 'opt'), rename='int'), V('Ch', F('0', 'Leaf', 'opt'))], tags='C08'))
    add(T('EnVec', variants=[V('Nil'), V('Strs', F('0', 'String', 'vec')), V('Ints', F('0', 'i32', 'vec'), rename='ints'), V('Chs', F('0', 'Leaf', 'vec'))], tags='C08'))
    add(T('EnSelf', variants=[V('Nil'), V('EnSelf', F('0', 'i32')), V('Inner', F('0', 'Leaf'))], tags='C01 C08 C17'))
    add(T('EnTag', variants=[V('Cat'), V('Dog', rename='dog'), V('Fox', rename='Cat2')], tag='type', tags='C01 C08 C04'))
    add(T('EnNs', variants=[V('A'), V('B', F('0', 'i32'), prefix='b'), V('C', F('0', 'Leaf'), prefix='a')], prefix='a', default_ns='a', namespaces={'a': A, 'b': B},
          tags='C07 C08'))
    add(T('HasEn', [F('e', 'EnCh'), F('o', 'En0', 'opt'), F('v', 'EnCh', 'vec', rename='vs')], tags='C01 C02 C03 C08'))

    # -- flattening
    add(T('FlIn', [F('x', 'i32'), F('y', 'String', 'opt'), F('k', 'u8', role='attr')], tags='C02 C03 C09'))
    add(T('FlPlain', [F('a', 'i32'), F('f', 'FlIn', role='flatten'), F('b', 'String', 'opt')], tags='C02 C09 C12'))
    add(T('FlTwo', [F('f', 'FlIn', role='flatten'), F('g', 'Pair', 'opt', role='flatten'), F('c', 'Leaf', 'vec')], tags='C03 C09'))
    add(T('FlOptIn', [F('a', 'i32'), F('f', 'FlIn', 'opt', role='flatten')], tags='C04 C09'))
    add(T('FlSkip', [F('f', 'FlIn', role='flatten', skip_if='FlIn'), F('g', 'Pair', 'opt', role='flatten', skip=True), F('b', 'u8')], tags='C06 C09'))
    add(T('FlOpt', [F('a', 'Leaf'), F('g', 'Pair', 'opt', role='flatten'), F('t', 'String', 'opt', role='text')], tags='C09 C12'))
    add(T('FlAttr', [F('n', 'i32', role='attr'), F('f', 'FlIn', role='flatten')], namespaces={'a': A}, tags='C04 C07 C09'))
    add(T('FlRoot', [F('x', 'i32'), F('c', 'Leaf', 'opt'), F('k', 'u8', 'opt', role='attr')], flatten=True, tags='C09'))
    add(T('FlHost', [F('r', 'FlRoot', role='flatten'), F('z', 'u8')], tags='C09'))
    add(T('FlEn', variants=[V('Nil'), V('N', F('0', 'i32')), V('Ch', F('0', 'Leaf'), rename='ch')], flatten=True, tags='C08 C09'))
    add(T('FlEnHost', [F('e', 'FlEn', role='flatten'), F('z', 'u8')], tags='C09'))
    add(T('EnRec', variants=[V('Nil'), V('Node', F('0', 'EnRec', 'vec'))], tags='C01 C08 C10 C17'))
    add(T('FlVec', [F('v', 'FlPlain', 'vec'), F('o', 'FlOptIn', 'opt')], tags='C02 C09 C17'))
    add(T('FlNsIn', [F('x', 'i32', prefix='a'), F('k', 'u8', role='attr')], namespaces={'a': A}, tags='C07 C09'))
    add(T('FlNsHost', [F('y', 'i32', prefix='b'), F('f', 'FlNsIn', role='flatten')], prefix='b', namespaces={'b': B}, tags='C07 C09'))
    add(T('FlMid', [F('m', 'i32', 'opt'), F('f', 'FlNsIn', role='flatten')], tags='C07 C09'))
    add(T('FlDeep', [F('d', 'u8'), F('f', 'FlMid', role='flatten')], tags='C02 C04 C07 C09'))
    add(T('PrStr', prim='String', tags='C16'))
    add(T('Hx', prim='u8', hex=True, tags='C16'))
    add(T('HxL', prim='u64', hex=True, tags='C16'))
    add(T('Dfy', prim='i32', derive='DefaultYaSerde', tags='C16'))
    add(T('HasHx', [F('a', 'Hx'), F('b', 'HxL', 'opt'), F('c', 'Hx', 'vec'), F('d', 'HxL', role='attr'), F('e', 'Dfy'), F('f', 'Dfy', role='attr')], tags='C01 C04 C16'))
    add(T('HasPr', [F('a', 'PrStr'), F('b', 'PrStr', 'vec'), F('c', 'Num', role='attr'), F('d', 'Num', 'opt', role='attr')], tags='C01 C16 C04'))
    # namespaces declared by flattened types that have no attribute, at one and two levels, optional, absent, next to others
    add(T('FlNsBare', [F('a', 'i32', prefix='n'), F('l', 'Leaf', 'opt', prefix='n')], prefix='n', namespaces={'n': 'http://n'}, tags='C07 C09'))
    add(T('FlNsBHost', [F('m', 'FlNsBare', role='flatten'), F('z', 'u8', 'opt')], tags='C07 C09'))
    add(T('FlNsBMid', [F('i', 'FlNsBHost', role='flatten'), F('c', 'Leaf', 'vec')], tags='C07 C09'))
    add(T('FlNsBAttr', [F('j', 'u8', role='attr'), F('m', 'FlNsBare', role='flatten'), F('o', 'FlNsIn', 'opt', role='flatten')], prefix='b', namespaces={'b': B}, tags='C07 C09'))
    add(T('FlVecW', [F('a', 'u8'), F('f', 'Pair', 'vec', role='flatten'), F('g', 'Tree', 'vec', role='flatten')], tags='C09', de=False))
    add(T('FlEnStruct', variants=[V('P', F('0', 'Pair', role='elem'), flatten=True), V('L', F('0', 'Leaf'), flatten=True)], flatten=True, tags='C09', de=False))
    add(T('EnNamed', variants=[V('Nil'), V('Rec', named=[F('a', 'String'), F('n', 'i32', rename='nn'), F('l', 'Leaf'), F('r#type', 'Kind', prefix='b'), F('v', 'Leaf', 'vec', rename='vv'), F('last', 'bool', prefix='b')]),
                               V('New', F('0', 'Pair')), V('Nums', named=[F('x', 'f64'), F('k', 'EnCh', 'vec', prefix='a')])],
          prefix='a', namespaces={'a': A, 'b': B}, tags='C08 C12 C13', de=False))
    add(T('HasEnNamed', [F('a', 'EnNamed'), F('b', 'EnNamed', 'vec'), F('c', 'u8')], tags='C08 C02', de=False))
    add(T('Wide', [F('a%d' % i, ['i32', 'String', 'Leaf', 'bool', 'Kind', 'f64'][i % 6], ['plain', 'opt', 'vec'][(i // 2) % 3], rename=None if i % 4 else 'n%d' % i) for i in range(12)] +
                  [F('k%d' % i, ['u8', 'String', 'bool'][i % 3], ['plain', 'opt'][i % 2], role='attr') for i in range(1)], tags='C01 C02 C03 C04 C05'))
    add(T('WideEn', variants=[V('V%d' % i, None if i % 3 == 0 else F('0', ['Leaf', 'u8', 'String', 'Pair'][i % 4], ['plain', 'vec'][i // 9]), rename=None if i % 5 else 'ren%d' % i) for i in range(14)], tags='C08'))
    add(T('Ns3', [F('x', 'i32', prefix='c'), F('y', 'String', 'opt', prefix='long-Pre.1'), F('z', 'Leaf', 'vec'), F('w', 'Pair', prefix='b'), F('k', 'u8', role='attr', prefix='c')], prefix='long-Pre.1',
          namespaces={'b': B, 'c': 'urn:c?x=1&y=2', 'long-Pre.1': 'http://ex.org/A'}, tags='C07'))
    add(T('HasNs3', [F('a', 'Ns3'), F('x', 'Ns3', 'vec', prefix='b'), F('c', 'i32', prefix='a')], prefix='b', namespaces={'a': 'urn:c?x=1&y=2', 'b': A}, tags='C07'))
    # -- more combinations of role, wrapper, modifier and namespace
    add(T('HasTag', [F('a', 'EnTag'), F('b', 'EnTag', 'opt'), F('c', 'EnTag', 'vec', rename='cc')], tags='C01 C02 C04 C08'))
    add(T('AtOpt', [F('a', 'String', 'opt', role='attr', default='Option<String>'), F('b', 'bool', 'opt', role='attr', skip_if='Option<bool>'),
                    F('c', 'String', 'vec', role='attr', skip_if='Vec<String>')], tags='C04 C06'))
    add(T('AtKindM', [F('a', 'Kind', role='attr', default='Kind'), F('b', 'Kind', 'opt', role='attr', skip_if='Option<Kind>'), F('c', 'Num', role='attr', default='Num')],
          tags='C04 C06 C08 C16'))
    add(T('AtPfx', [F('a', 'String', 'opt', role='attr', prefix='b', rename='aa'), F('b', 'i64', role='attr', prefix='b'),
                    F('c', 'Kind', 'opt', role='attr', prefix='b', rename='see'), F('d', 'u8', 'vec', role='attr', prefix='a', rename='d-d')],
          prefix='a', namespaces={'a': A, 'b': B}, tags='C04 C07'))
    add(T('XmlAt', [F('l', 'String', role='attr', prefix='xml', rename='lang'), F('s', 'String', 'opt', role='attr', prefix='xml', rename='space'), F('x', 'i32', 'opt')],
          tags='C04 C07'))
    add(T('NsVec', [F('s', 'String', 'vec', prefix='a', rename='s-s'), F('n', 'i32', 'vec', prefix='b'), F('l', 'Leaf', 'vec', prefix='b', rename='el'),
                    F('k', 'Kind', 'opt', prefix='a', rename='kk')], prefix='a', namespaces={'a': A, 'b': B}, tags='C03 C07'))
    add(T('NsVecD', [F('s', 'String', 'vec', prefix='a', rename='s-s'), F('n', 'i32', 'opt', prefix='b', rename='en'), F('m', 'bool', prefix='a', rename='m')],
          prefix='a', default_ns='b', namespaces={'a': A, 'b': B}, tags='C03 C07'))
    add(T('NsMod', [F('x', 'i32', prefix='b', rename='q', default='i32'), F('y', 'String', 'opt', prefix='a', skip_if='Option<String>'),
                    F('c', 'String', role='cdata', prefix='b', skip_if='String'), F('k', 'i32', role='attr', prefix='b', default='i32')],
          prefix='a', default_ns='a', namespaces={'a': A, 'b': B}, tags='C06 C07'))
    add(T('NsChild', [F('c', 'NsRoot', prefix='b'), F('d', 'NsSame', 'opt', prefix='a', rename='dd')], prefix='b', namespaces={'a': A, 'b': B}, tags='C01 C07'))
    add(T('EnumMod', [F('a', 'Kind', default='Kind'), F('b', 'Kind', 'opt', skip_if='Option<Kind>'), F('c', 'Kind', 'vec', skip_if='Vec<Kind>')], tags='C06 C08'))
    add(T('StrMod', [F('a', 'String', 'opt', skip_if='Option<String>'), F('b', 'String', 'vec', skip_if='Vec<String>'), F('c', 'String', default='String', skip_if='String')],
          tags='C06'))
    add(T('NumMod', [F('a', 'Num', default='Num'), F('b', 'Num', skip_if='Num'), F('c', 'f64', default='f64')], tags='C06 C16'))
    add(T('TxtMod', [F('k', 'u8', role='attr'), F('t', 'String', 'opt', role='text', skip_if='Option<String>')], tags='C06 C14'))
    add(T('FlTxt', [F('f', 'Txt', role='flatten'), F('z', 'u8', 'opt')], tags='C09 C14'))
    add(T('FlCd', [F('f', 'Cd', role='flatten'), F('z', 'u8', 'vec')], tags='C09 C14'))
    add(T('FlEnOpt', [F('z', 'u8'), F('e', 'FlEn', 'opt', role='flatten')], tags='C08 C09'))
    add(T('EnPr', variants=[V('Nil'), V('N', F('0', 'Num')), V('S', F('0', 'PrStr', 'vec')), V('O', F('0', 'Num', 'opt'))], tags='C08 C16'))
    add(T('EnTagIn', variants=[V('Nil'), V('T', F('0', 'EnTag')), V('W', F('0', 'EnTag', 'vec'), rename='ww')], tags='C08'))
    add(T('EnOptB', variants=[V('Nil'), V('B', F('0', 'bool', 'opt')), V('F', F('0', 'f64', 'opt')), V('P', F('0', 'Pair', 'opt'), rename='pp')], tags='C08'))
    add(T('EnVecB', variants=[V('Nil'), V('B', F('0', 'bool', 'vec')), V('F', F('0', 'f32', 'vec')), V('U', F('0', 'u64', 'vec'), rename='uu'), V('K', F('0', 'Kind', 'vec'))],
          tags='C08 C13'))
    add(T('Raw', [F('r#type', 'i32', rename='type'), F('r#match', 'String', 'opt', role='attr', rename='match'), F('r#in', 'Leaf', 'vec', rename='in')], tags='C01 C02 C03'))
    add(T('Paths', [F('a', 'u8', 'opt', spell='std::option::Option<u8>'), F('b', 'String', 'vec', spell='::std::vec::Vec<::std::string::String>'), F('c', 'bool', spell='core::primitive::bool'),
                    F('d', 'Leaf', 'opt', spell='core::option::Option<self::Leaf>'), F('e', 'i32', 'opt', role='attr', spell='std::option::Option<core::primitive::i32>'),
                    F('f', 'String', role='text', spell='std::string::String')], tags='C01 C02 C03 C04 C14'))
    add(T('Gen1', [F('a', 'Pair', spell='X'), F('b', 'Pair', 'opt', spell='Option<X>'), F('c', 'Pair', 'vec', spell='Vec<X>'), F('d', 'u8')], rename='gen', generic=('X', 'Pair'), tags='C01 C02 C03 C17'))
    add(T('GenE', variants=[V('Nil'), V('A', F('0', 'Leaf', spell='X')), V('B', F('0', 'Leaf', 'vec', spell='Vec<X>'))], rename='gene', generic=('X', 'Leaf'), tags='C08', de=False))
    add(T('Mac', [F('a', 'i32'), F('b', 'String', 'opt'), F('c', 'Leaf', 'vec'), F('k', 'f32', 'opt', role='attr'), F('l', 'String', role='attr')], macro=True, tags='C01 C02 C03 C04'))
    add(T('RawN', [F('r#type', 'i32'), F('r#match', 'String', 'opt', role='attr'), F('r#in', 'Leaf', 'vec'), F('r#as', 'bool', 'opt'), F('r#fn', 'Kind')], tags='C01 C02 C03'))
    add(T('EnRaw', variants=[V('r#move'), V('r#box', F('0', 'u8')), V('r#dyn', F('0', 'Leaf', 'vec'))], tags='C02 C08'))
    add(T('Deep', [F('n', 'Nest', 'opt'), F('m', 'Same', 'opt'), F('o', 'Only', 'vec')], tags='C01 C02 C03 C17'))
    add(T('EnName', [F('e', 'Kind', rename='Red'), F('y', 'u8', 'opt'), F('f', 'EnCh', 'opt', rename='Nil')], rename='Blue', tags='C08 C17'))
    # -- names as XML allows them: very long and very short, other scripts, digits, capitals, points, hyphens and underscores
    LONG = 'a-very-long-element-name.with_every-kind.of_separator-in-it.and-more-than-sixty-four-characters'
    add(T('Names', [F('snake_case_name_2', 'String'), F('CamelCaseName', 'i32', 'opt'), F('été', 'u8'), F('_lead', 'bool', 'vec'), F('long', 'Leaf', 'opt', rename=LONG),
                    F('up', 'i32', rename='UPPER-Q'), F('z9', 'u16', rename='z.9.'), F('cyr', 'String', 'opt', rename='имя'), F('at', 'String', role='attr', rename=LONG),
                    F('at2', 'i32', role='attr', rename='Ключ_2'), F('kind', 'Kind', 'opt', role='attr', rename='x')], rename='Root-Name_' + LONG, tags='C01 C02 C03 C04'))
    add(T('NamesEn', variants=[V('Plain_Unit_Variant2'), V('Up', rename='UPPER-Q'), V('Long', F('0', 'i32'), rename=LONG), V('É', F('0', 'Leaf')), V('Dot', F('0', 'String', 'vec'), rename='z.9.'), V('One', rename='q')],
          rename='an.En-um', tags='C01 C02 C08'))
    add(T('NamesNs', [F('a', 'i32', prefix='LONG-Prefix_of.many.parts-9', rename=LONG), F('b', 'String', 'opt', prefix='q'), F('c', 'Leaf', 'vec', prefix='Q', rename='b'),
                      F('d', 'u8', role='attr', prefix='q', rename='ID')], prefix='q', rename='Наме',
          namespaces={'q': 'http://example.org/ns/', 'Q': 'http://example.org/ns', 'LONG-Prefix_of.many.parts-9': 'urn:' + LONG + '#"q"<1>&2'}, tags='C01 C03 C07'))
    add(T('HasNames', [F('a', 'Names', rename='names'), F('b', 'NamesEn', 'vec', rename='B.b'), F('c', 'NamesNs', 'opt', prefix='q', rename='Cc')], prefix='q', namespaces={'q': 'http://example.org/ns/'}, tags='C01 C02 C08'))
    return L


CORPUS = build()
BY = {t.name: t for t in CORPUS}
