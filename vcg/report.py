"""Obligations and their outcome."""


class Obl:
    __slots__ = ('props', 'subject', 'name', 'status', 'detail', 'exact')

    def __init__(self, props, subject, name, status, detail='', exact=True):
        self.props = frozenset(props)
        self.subject = subject      # the type or function the obligation belongs to
        self.name = name
        self.status = status        # proved | refuted | unknown | unsupported
        self.detail = detail
        self.exact = exact          # refuted without any over-approximation on the path

    def __repr__(self):
        return '<%s %s %s %s%s %s>' % (self.status, self.subject, self.name, ','.join(sorted(self.props)), '' if self.exact else ' (approx)', self.detail[:300])


class Report:
    def __init__(self):
        self.obls = []

    def add(self, *a, **k):
        self.obls.append(Obl(*a, **k))

    def counts(self):
        c = {}
        for o in self.obls:
            c[o.status] = c.get(o.status, 0) + 1
        return c
