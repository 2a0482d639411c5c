"""Derived types drawn at random from the supported field kinds: combinations of role, wrapper, name,
modifier, namespace and position that the hand-written corpus does not list. Deterministic for a seed."""
import random

RENAMES = ['A', 'b-b', 'C.c', 'value', 'x1', 'long-name.with_all', 'Leaf', 'kind', 'e', 'text', 'type', 'None', 'Some', 'item', 'y', 'Rb']
IDENTS = ['alpha', 'be_ta', 'x', 'value2', 'r#type', 'k_1', 'name', 'items', 'r#loop', 'depth', 'reader', 'writer', 'result', 'e', 'text_', 'attrs']
STRUCTS = ['Leaf', 'Pair', 'Same', 'Only', 'Txt', 'TxtOpt', 'Cd', 'Empty', 'Tree', 'AtBoth', 'Skip', 'FlPlain', 'Dflt']
ENUMS = ['Kind', 'Unit', 'EnCh', 'EnTag', 'En0', 'EnSelf', 'EnOpt', 'EnVec', 'EnRec']
PRIMS = ['Num', 'PrStr', 'Hx', 'HxL', 'Dfy']
A, B = 'http://ex.org/a', 'http://ex.org/b'


def make(seed, n, F, V, T, SCALARS, BY, DFLT, PRED):
    rng = random.Random('types/%s' % seed)
    out = []
    mine_s, mine_e = [], []
    by = dict(BY)
    for i in range(n):
        name = 'R%s%d' % ('e' if rng.random() < 0.22 else 's', i)
        t = (enum if name[1] == 'e' else struct)(rng, name, F, V, T, SCALARS, by, DFLT, PRED, mine_s, mine_e)
        (mine_e if name[1] == 'e' else mine_s).append(name)
        by[name] = t
        out.append(t)
    return out


def base_for(rng, SCALARS, mine_s, mine_e, k=None):
    k = k or rng.choices(['scalar', 'String', 'struct', 'enum', 'prim', 'own_s', 'own_e'], [5, 4, 5, 3, 1, 3, 2])[0]
    if k == 'own_s' and not mine_s or k == 'own_e' and not mine_e:
        k = 'struct'
    return {'scalar': lambda: rng.choice(SCALARS), 'String': lambda: 'String', 'struct': lambda: rng.choice(STRUCTS), 'enum': lambda: rng.choice(ENUMS),
            'prim': lambda: rng.choice(PRIMS), 'own_s': lambda: rng.choice(mine_s), 'own_e': lambda: rng.choice(mine_e)}[k]()


def labels_of(by, t, flat=True):
    """(element labels with their namespace prefix, attribute labels, has text) a flattened type brings along"""
    el, at, tx = set(), set(), False
    for f in t.fields:
        if f.role == 'attr':
            at.add(f.label)
        elif f.role == 'text':
            tx = True
        elif f.role == 'flatten':
            e, a, x = labels_of(by, by[f.base]) if by[f.base].kind == 'struct' else ({v.label for v in by[f.base].variants}, set(), True)
            el |= e
            at |= a
            tx |= x
        else:
            el.add(f.label)
    return el, at, tx


def struct(rng, name, F, V, T, SCALARS, by, DFLT, PRED, mine_s, mine_e):
    ns = {}
    prefix = default_ns = None
    if rng.random() < 0.3:
        ns = rng.choice([{'a': A}, {'b': B}, {'a': A, 'b': B}, {'a': A, 'b': B, 'Cc-1': 'urn:x'}])
        prefix = rng.choice([None] + list(ns) * 2)
        default_ns = rng.choice([None, None] + list(ns))
    fields, els, ats, text, flats, seen = [], set(), set(), False, 0, set()
    ids = rng.sample(IDENTS, len(IDENTS))
    for _ in range(rng.choice([1, 2, 3, 3, 4, 4, 5])):
        role = rng.choices(['elem', 'attr', 'text', 'cdata', 'flatten'], [60, 22, 8, 6, 10])[0]
        ident = ids.pop()
        plain = ident[2:] if ident.startswith('r#') else ident
        rename = rng.choice(RENAMES) if rng.random() < 0.45 else None
        label = rename or plain
        pfx = rng.choice(list(ns)) if ns and rng.random() < 0.5 else None
        # two fields whose names are alike but for case and punctuation do not compile
        vis = (role == 'attr', ''.join(ch for ch in label.lower() if ch.isalnum()))
        if vis in seen:
            continue
        seen.add(vis)
        if role == 'text':
            if text:
                continue
            text = True
            f = F(ident, 'String', rng.choice(['plain', 'opt']), role='text')
        elif role == 'cdata':
            if label in els:
                continue
            els.add(label)
            f = F(ident, 'String', role='cdata', rename=rename, prefix=pfx)
        elif role == 'flatten':
            cands = [x for x in ['Pair', 'FlIn', 'Leaf', 'Txt', 'FlPlain', 'TxtElem', 'SkipOV', 'AtI32'] + mine_s if not by[x].namespaces and not by[x].flatten]
            x = rng.choice(cands)
            e, a, tx = labels_of(by, by[x])
            if e & els or a & ats or (tx and text) or flats >= 2:
                continue
            flats += 1
            els |= e
            ats |= a
            text |= tx
            f = F(ident, x, rng.choice(['plain', 'plain', 'opt']), role='flatten')
        elif role == 'attr':
            if label in ats or label in ('xmlns', 'type') and False:
                continue
            ats.add(label)
            base = rng.choice(SCALARS + ['String'] * 4 + ['Kind', 'Num', 'Hx', 'Dfy'])
            wrap = rng.choices(['plain', 'opt', 'vec'], [4, 4, 2 if base not in ('Num', 'Hx', 'Dfy') else 0])[0]
            f = F(ident, base, wrap, role='attr', rename=rename, prefix=pfx)
        else:
            if label in els:
                continue
            els.add(label)
            base = base_for(rng, SCALARS, mine_s, mine_e)
            f = F(ident, base, rng.choices(['plain', 'opt', 'vec'], [4, 3, 3])[0], rename=rename, prefix=pfx)
        # modifiers
        if role != 'flatten' or True:
            if rng.random() < 0.25 and f.wrap == 'plain' and f.base in DFLT and role != 'flatten':
                f.default = f.base
            if rng.random() < 0.12 and f.rust in PRED:
                f.skip_if = f.rust
            if rng.random() < 0.06:
                f.skip = True
        fields.append(f)
    return T(name, fields, rename=rng.choice(RENAMES) if rng.random() < 0.4 else None, prefix=prefix, default_ns=default_ns, namespaces=ns)


def enum(rng, name, F, V, T, SCALARS, by, DFLT, PRED, mine_s, mine_e):
    labels = set()
    vs = []
    tag = rng.choice(['type', 'is-a']) if rng.random() < 0.2 else None
    for x in rng.sample(['Zero', 'One', 'Two', 'Leaf', 'Value', 'Z9'], rng.choice([2, 3, 4])):
        rename = rng.choice(RENAMES) if rng.random() < 0.4 else None
        if (rename or x) in labels:
            continue
        labels.add(rename or x)
        pay = None
        if not tag and rng.random() < 0.7 and vs:
            base = base_for(rng, SCALARS, mine_s, mine_e)
            pay = F('0', base, rng.choices(['plain', 'opt', 'vec'], [6, 2, 2])[0])
        vs.append(V(x, pay, rename=rename))
    return T(name, variants=vs, rename=rng.choice([r for r in RENAMES if r not in labels]) if rng.random() < 0.4 else None, tag=tag)
