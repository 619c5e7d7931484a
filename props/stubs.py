"""Recording stand-ins for matplotlib objects, the same in symbolic and in replayed runs."""
import contextlib

# call -> (parameters given by position in the calls the harnesses see, parameters that follow them and are given by name)
SIGNATURES = {
    'set_title': (('label',), ('fontdict',)), 'set_xlabel': (('xlabel',), ('fontdict',)), 'set_ylabel': (('ylabel',), ('fontdict',)),
    'suptitle': (('t',), ()), 'text': (('x', 'y', 's'), ('fontdict',)), 'axhline': (('y',), ('xmin', 'xmax')),
    'axvline': (('x',), ('ymin', 'ymax')), 'set_xticks': (('ticks',), ('labels',)), 'set_yticks': (('ticks',), ('labels',)),
    'set_ticks': (('ticks',), ('labels',)), 'set_xticklabels': (('labels',), ()), 'set_yticklabels': (('labels',), ()),
    'set_ticklabels': (('labels',), ()), 'savefig': (('fname',), ()), 'imshow': (('X',), ('cmap', 'norm')), 'matshow': (('Z',), ()),
    'pie': (('x',), ('explode', 'labels', 'colors', 'autopct')), 'errorbar': (('x', 'y'), ('yerr', 'xerr', 'fmt')),
    'scatter': (('x', 'y'), ('s', 'c', 'marker', 'cmap', 'norm', 'vmin', 'vmax', 'alpha')),
    'streamplot': (('x', 'y', 'u', 'v'), ('density', 'linewidth', 'color', 'cmap', 'norm')), 'legend': (('labels',), ()),
}
LIMITS = {'set_xlim': (('left', 'xmin'), ('right', 'xmax')), 'set_ylim': (('bottom', 'ymin'), ('top', 'ymax'))}


def canonical(name, a, kw):
    """The same call in the one style the harnesses read, whichever of the styles matplotlib accepts it was written in."""
    if name in LIMITS:
        kw = dict(kw)
        got = list(a[:2]) if len(a) != 1 or not hasattr(a[0], '__len__') else list(a[0])
        for i, names in enumerate(LIMITS[name]):
            for n in names:
                if n in kw and i == len(got):
                    got.append(kw.pop(n))
        return ((tuple(got),) if len(got) == 2 else a), kw
    if name not in SIGNATURES or name == 'legend' and a:
        return a, kw
    first, more = SIGNATURES[name]
    kw = dict(kw)
    pos = list(a[:len(first)])
    kw.update(zip(more, a[len(first):len(first) + len(more)]))
    pos += [kw.pop(n) for n in first[len(pos):] if n in kw]
    return tuple(pos) + tuple(a[len(first) + len(more):]), kw


class Recorder:
    """Accepts every call, remembers it, and returns what was configured for that name (default: another recorder)."""

    def __init__(self, name='r', attrs=None, **ret):
        self.__dict__.update(_name=name, _ret=ret, calls=[])
        self.__dict__.update(attrs or {})

    def __getattr__(self, n):
        if n.startswith('__'):
            raise AttributeError(n)
        ret = self._ret
        if n in ret and not callable(ret[n]):
            return ret[n]

        def f(*a, **kw):
            if n == 'set' and not a:
                for k, v in kw.items():
                    getattr(self, 'set_' + k)(v)
                return []
            a, kw = canonical(n, a, kw)
            self.calls.append((n, a, kw))
            if n in ret:
                return ret[n](*a, **kw)
            return Recorder(self._name + '.' + n)
        return f

    def of(self, n):
        return [(a, kw) for m, a, kw in self.calls if m == n]

    def __iter__(self):
        return iter(())


class Image(Recorder):
    """A colour mapped image: remembers its limits, autoscaled to lo, hi."""

    def __init__(self, lo, hi):
        super().__init__('image')
        self.__dict__.update(lim=[lo, hi])

    def set_clim(self, vmin=None, vmax=None):
        if vmax is None and vmin is not None:
            vmin, vmax = vmin
        if vmin is not None:
            self.lim[0] = vmin
        if vmax is not None:
            self.lim[1] = vmax

    def get_clim(self):
        return tuple(self.lim)


@contextlib.contextmanager
def patched(*triples):
    """(object, attribute, value) replaced for the duration."""
    old = [(o, n, getattr(o, n)) for o, n, _ in triples]
    try:
        for o, n, v in triples:
            setattr(o, n, v)
        yield
    finally:
        for o, n, v in old:
            setattr(o, n, v)
