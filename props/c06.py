"""C06: the data store of maps and grains keeps, computes and derives what
it was told, through failures."""
import itertools

import numpy as np

from dsim import util
from dsim.core import Violation
from dsim.util import clear_tb, outcome, require, same

ID = 'C06'
LEVEL = 'exploration'
RUNS = dict(quick=20000, thorough=400000)
RULE = ('A run drives a network of data stores shaped like a map, two '
        'generations of its grains and a linked map with a random history '
        'of 3 to 30 operations (adding, setting, clearing, reading, lazy '
        'and explicit calculation, merging, linking) in which the '
        'calculating, deriving, cropping and masking functions fail at '
        'times drawn from the seed (ordinary errors, failed allocations, '
        'interrupts, a wrong number of results). Every step is compared '
        'with a reference store written as plain dictionaries, including '
        'how often each calculation ran. Non-trivial: a function failed or '
        'a derived item was read. Distinct: operation histories.')
ASSUMPTIONS = [
    'Stores are linked as maps and grains link them: each link passes on '
    'items selected by their type.',
    'Items kept from a failing step are those from before it.',
]
REAL = ['defdap.utils.Datastore']
STUB = ['the functions that calculate, derive, crop and mask']
MEASURE = 'distinct operation histories'
KEYS = ['a', 'b', 'c', 'd', 'point']
TYPES = ['map', 'list', 'boundaries']


def warmup():
    import defdap.utils  # noqa


def generate(r):
    ops = []
    n = r.randint(3, 30)
    for _ in range(n):
        k = r.choice(['add', 'add', 'set', 'get', 'get', 'get', 'get',
                      'clear', 'generator', 'generator', 'generate', 'meta',
                      'setmeta', 'keys', 'link', 'link', 'grains', 'arm',
                      'arm', 'update', 'getmeta', 'attr'])
        s = r.choice(['M', 'M', 'M', 'G', 'H', 'E', 'G2'])
        key = r.choice(KEYS)
        if k == 'add':
            ops.append([k, s, key, r.choice(TYPES + [None]),
                        r.choice([None, 1, 2, 3]),
                        r.choice([{}, {}, {'cropped': True},
                                  {'apply_mask': False}, {'binning': 2},
                                  {'unit': 'um'}])])
        elif k == 'set':
            ops.append([k, s, key, r.randint(10, 99)])
        elif k in ('get', 'clear', 'getmeta'):
            ops.append([k, s, key])
        elif k == 'attr':
            ops.append([k, s, key, r.choice([None, r.randint(100, 999)])])
        elif k == 'generator':
            ks = r.sample(KEYS, r.choice([1, 1, 2, 3]))
            ops.append([k, s, ks, [[r.choice(TYPES), r.random() < .75,
                                    r.choice([None, None, 'um'])]
                                   for _ in ks], r.random() < .2,
                        r.choice([None, None] + KEYS),
                        r.choice([None] * 8 + ['twice', 'few', 'data',
                                               'none'])])
        elif k == 'generate':
            ops.append([k, s, key, r.choice([None, 5, 7]),
                        r.random() < .5])
        elif k == 'meta':
            ops.append([k, s, key, r.choice(['type', 'unit', 'binning',
                                             'none'])])
        elif k == 'setmeta':
            ops.append([k, s, key, r.choice(['unit', 'note']),
                        r.choice(['x', 'y'])])
        elif k == 'keys':
            ops.append([k, s])
        elif k == 'link':
            ops.append([k, r.choice(['MG', 'GM', 'HM', 'ME', 'MG2', 'G2M'])])
        elif k == 'grains':
            ops.append([k])
        elif k == 'arm':
            ops.append([k, r.choice(['gen', 'gen', 'derive', 'crop',
                                     'mask']),
                        r.choice(['KeyboardInterrupt', 'MemoryError',
                                  'ValueError', 'KeyError', 'short',
                                  'long']),
                        r.choice([0, 0, 0, 1, 2])])
        else:
            ops.append([k, s, r.choice([None, 'self']),
                        [[kk, r.randint(1000, 1999)] for kk in
                         r.sample(KEYS, 2)]])
    return dict(ops=ops, _lists=['ops'])


class Boom(Exception):
    pass


EXC = {'KeyboardInterrupt': KeyboardInterrupt, 'MemoryError': MemoryError,
       'ValueError': ValueError, 'KeyError': KeyError}


class Item:
    def __init__(self, val, meta):
        self.val, self.meta = val, dict(meta)


class Ref:
    """Reference store: plain dictionaries."""

    def __init__(self, name, group):
        self.name, self.group = name, group
        self.items, self.gens, self.links = {}, {}, []

    def own(self, k):
        return k in self.items

    def derived(self, k):
        """The first link that passes k on."""
        for ln in self.links:
            if ln['src'].group == self.group:
                continue
            it = ln['src'].items.get(k)
            if it is not None and it.meta.get('type') == ln['type']:
                return ln
        return None

    def keys(self):
        out = list(self.items)
        for ln in self.links:
            if ln['src'].group == self.group:
                continue
            out += [k for k, it in ln['src'].items.items()
                    if it.meta.get('type') == ln['type']]
        return out

    def has(self, k):
        return k in self.keys()


class Sim:
    def __init__(self, run):
        from defdap.utils import Datastore
        self.run, self.D = run, Datastore
        self.armed = {}
        self.calls = {}
        self.want_calls = {}
        self.gid = {}
        self.real, self.ref = {}, {}
        self.fn = {}
        self.counter = itertools.count()
        for n, g in (('M', 'm'), ('E', 'e'), ('G', 'g'), ('H', 'g'),
                     ('G2', 'g2')):
            self.new(n, g)
        # a grain is linked to its map when it is made
        for which in ('GM', 'HM', 'G2M'):
            self.link(which)

    def new(self, n, g):
        if g not in self.gid:
            self.gid[g] = self.D.generate_id()
        self.real[n] = self.D(
            group_id=self.gid[g],
            crop_func=lambda x, binning=1, n=n: self.crop(n, x, binning),
            mask_func=lambda x, n=n: self.mask(n, x))
        self.ref[n] = Ref(n, g)

    # functions handed to the stores
    def hit(self, kind):
        a = self.armed.get(kind)
        if a is None:
            return None
        if a[1] > 0:
            a[1] -= 1
            return None
        del self.armed[kind]
        self.run.fault(f'{kind} {a[0]}')
        self.fired = a[0]
        return a[0]

    def crop(self, n, x, b):
        f = self.hit('crop')
        if f in EXC:
            raise EXC[f]('simulated')
        return ('crop', n, b, x)

    def mask(self, n, x):
        f = self.hit('mask')
        if f in EXC:
            raise EXC[f]('simulated')
        return ('mask', n, x)

    def generator(self, n, keys, tag, dep=None):
        def gen(p=0):
            self.calls[tag] = self.calls.get(tag, 0) + 1
            q = () if dep is None else (self.real[n][dep],)
            f = self.hit('gen')
            if f in EXC:
                raise EXC[f]('simulated')
            out = [(tag, k, p, self.calls[tag]) + q for k in keys]
            if f == 'short' and len(keys) > 1:
                return tuple(out[:-1])
            if f == 'long' and len(keys) > 1:
                return tuple(out + ['more'])
            return out[0] if len(keys) == 1 else tuple(out)
        return gen

    def deriver(self, name):
        """One function per kind of link, as bound methods are."""
        if name not in self.fn:
            def derive(v):
                f = self.hit('derive')
                if f in EXC:
                    raise EXC[f]('simulated')
                return ('derive', name, v)
            self.fn[name] = derive
        return self.fn[name]

    # what a read should give; raises what it should raise
    def expect(self, n, k, depth=0):
        s = self.ref[n]
        if not s.own(k):
            ln = s.derived(k)
            if ln is None:
                raise Missing()
            f = None
            if ln['ref']:
                f = self.peek('derive')
                if f in EXC:
                    raise Fails(f)
                return ('derive', ln['name'], k)
            v = self.expect(ln['src'].name, k, depth + 1)
            f = self.peek('derive')
            if f in EXC:
                raise Fails(f)
            return ('derive', ln['name'], v)
        it = s.items[k]
        val = it.val
        if val is None:
            g = self.find_gen(s, k)
            if g is not None:
                val = self.run_gen(s, g, k, 0)
        if it.meta.get('type') == 'map':
            if not it.meta.get('cropped', False):
                f = self.peek('crop')
                if f in EXC:
                    raise Fails(f)
                val = ('crop', n, it.meta.get('binning', 1), val)
            if it.meta.get('apply_mask', True):
                f = self.peek('mask')
                if f in EXC:
                    raise Fails(f)
                val = ('mask', n, val)
        return val

    def peek(self, kind):
        """The model's own copy of what is armed."""
        a = self.model_armed.get(kind)
        if a is None:
            return None
        if a[1] > 0:
            a[1] -= 1
            return None
        del self.model_armed[kind]
        return a[0]

    @staticmethod
    def find_gen(s, k):
        for keys, (tag, dep) in s.gens.items():
            if k in keys:
                return keys, tag, dep
        return None

    def run_gen(self, s, g, k, p):
        keys, tag, dep = g
        self.want_calls[tag] = self.want_calls.get(tag, 0) + 1
        q = () if dep is None else (self.expect(s.name, dep),)
        f = self.peek('gen')
        if f in EXC:
            raise Fails(f)
        if f in ('short', 'long') and len(keys) > 1:
            raise Fails('ValueError')
        c = self.want_calls[tag]
        for kk in keys:
            if s.items[kk].meta.get('save', True):
                s.items[kk].val = (tag, kk, p, c) + q
        return (tag, k, p, c) + q

    # ----- steps
    def do(self, what, fn, want):
        """want: a callable that updates the model and returns the value
        or raises Missing/Fails/Bad."""
        self.model_armed = {k: list(v) for k, v in self.armed.items()}
        self.fired = None
        try:
            w = ('ok', want())
        except Missing:
            w = ('KeyError', None)
        except Bad:
            w = ('ValueError', None)
        except NoGen:
            w = ('DataGenerationError', None)
        except Fails as f:
            w = (f.args[0], None)
        try:
            got = ('ok', fn())
        except (Exception, KeyboardInterrupt) as e:
            got = (type(e).__name__, str(e))
            clear_tb(e)
        require(got[0] == w[0], 'wrong-outcome', f'{what}: {got} instead of '
                f'{w}')
        if w[0] == 'ok':
            require(same(got[1], w[1]), 'wrong-value', f'{what} gave '
                    f'{got[1]!r} instead of {w[1]!r}')
        require(self.calls == self.want_calls, 'wrong-calls', f'after '
                f'{what} calculations ran {self.calls}, not '
                f'{self.want_calls}')
        require({k: v for k, v in self.armed.items()} ==
                {k: v for k, v in self.model_armed.items()},
                'wrong-calls', f'{what}: functions were called another '
                f'number of times than expected')
        self.run.log(str(what), w[0])
        return w[0]

    def op(self, o):
        k = o[0]
        if k == 'arm':
            if o[1] == 'gen' or o[2] not in ('short', 'long'):
                self.armed[o[1]] = [o[2], o[3]]
            return
        if k == 'link':
            return self.link(o[1])
        if k == 'grains':
            return self.grains()
        n = o[1]
        d, s = self.real[n], self.ref[n]
        if k == 'add':
            meta = dict(o[5])
            if o[3] is not None:
                meta['type'] = o[3]
            val = None if o[4] is None else ('v', o[4])

            def w():
                if s.has(o[2]):
                    raise Bad()
                s.items[o[2]] = Item(val, meta)
            self.do(o, lambda: d.add(o[2], val, **meta), w)
        elif k in ('set', 'clear') or k == 'attr' and o[3] is not None:
            val = None if k == 'clear' else ('s', o[3])

            def w():
                if not s.own(o[2]):
                    raise Bad()
                s.items[o[2]].val = val

            if not s.own(o[2]) and s.has(o[2]):
                return        # setting derived data is not supported
            if k == 'attr':
                self.do(o, lambda: setattr(d, o[2], val), w)
            else:
                self.do(o, lambda: d.__setitem__(o[2], val), w)
        elif k == 'get':
            self.do(o, lambda: d[o[2]], lambda: self.expect(n, o[2]))
            if not s.own(o[2]) and s.has(o[2]):
                self.run.probe('derived item read')
        elif k == 'attr':
            self.do(o, lambda: getattr(d, o[2]),
                    lambda: self.expect(n, o[2]))
        elif k == 'generator':
            keys = tuple(o[2])
            tag = f'{n}{next(self.counter)}'
            metas = [dict(type=t, save=sv) if u is None else
                     dict(type=t, save=sv, unit=u) for t, sv, u in o[3]]
            more = {'binning': 2} if o[4] else {}
            # calculated from data the store already holds
            dep = o[5] if s.own(o[5]) else None

            how = o[6]
            if how == 'twice':
                keys += keys[:1]
                metas += metas[:1]
            elif how == 'few':
                metas = metas[:-1]
            elif how == 'data':
                metas[-1]['data'] = 1

            def w():
                if any(s.has(x) for x in keys) or how in ('twice', 'few',
                                                          'data'):
                    raise Bad()
                for x, m in zip(keys, metas):
                    s.items[x] = Item(None, dict(
                        {} if how == 'none' else m, **more))
                s.gens[keys] = tag, dep
            g = self.generator(n, keys, tag, dep)
            given = [dict(m) for m in metas]
            if how == 'none':
                self.do(o, lambda: d.add_generator(keys, g, **more), w)
            elif len(keys) == 1 == len(metas):
                self.do(o, lambda: d.add_generator(
                    keys[0], g, metadatas=given[0], **more), w)
            else:
                def add():
                    try:
                        d.add_generator(keys, g, metadatas=given, **more)
                    except LookupError as e:
                        raise ValueError('refused') from e
                self.do(o, add, w)
            require(given == metas, 'changed-argument', 'the metadata given '
                    f'for {keys} become {given}')
        elif k == 'generate':
            def w():
                g = self.find_gen(s, o[2])
                if g is None:
                    raise NoGen()
                v = self.run_gen(s, g, o[2], 0 if o[3] is None else o[3])
                return v if o[4] else None
            kw = {} if o[3] is None else {'p': o[3]}
            self.do(o, lambda: d.generate(o[2], return_val=o[4], **kw), w)
        elif k in ('meta', 'getmeta'):
            attr = o[3] if k == 'meta' else 'type'

            def w():
                if s.own(o[2]):
                    if attr not in s.items[o[2]].meta:
                        if k == 'meta':
                            raise Missing()
                        return 'default'
                    return s.items[o[2]].meta[attr]
                ln = s.derived(o[2])
                if ln is not None:
                    if attr in ln['out']:
                        return ln['out'][attr]
                    m = ln['src'].items[o[2]].meta
                    if attr in m:
                        return m[attr]
                if k == 'meta':
                    raise Missing()
                return 'default'
            self.do(o, (lambda: d[o[2], attr]) if k == 'meta' else
                    (lambda: d.get_metadata(o[2], attr, 'default')), w)
        elif k == 'setmeta':
            if not s.own(o[2]):
                return

            def w():
                s.items[o[2]].meta[o[3]] = o[4]
            self.do(o, lambda: d.__setitem__((o[2], o[3]), o[4]), w)
        elif k == 'keys':
            # how often a name is listed that both ends of a link use is
            # left open
            self.do(o, lambda: (sorted(set(d.keys())),
                                len(d) == len(list(d.keys())),
                                sorted(set(d)),
                                [x in d for x in KEYS]),
                    lambda: (sorted(set(s.keys())), True,
                             sorted(set(s.keys())),
                             [s.has(x) for x in KEYS]))
            text = str(d)
            for x in s.keys():
                require(x in text, 'wrong-text', f'{x} not in {text}')
        elif k == 'update':
            other = self.D()
            for x, v in o[3]:
                other.add(x, ('u', v))

            def w():
                for x, v in o[3]:
                    if o[2] == 'self' and x in s.items:
                        continue
                    s.items[x] = Item(('u', v), {})
            def merge():
                d.update(other, priority=o[2])
                # the stores stay two
                for x, v in o[3]:
                    other[x] = 'changed'
                    other[x, 'type'] = 'other'
                other.add('later', 1)
            self.do(o, merge, w)

    LINKS = {            # store, source, selects, gives, passes the name
        'MG': ('M', 'G', 'list', 'map', True),
        'MG2': ('M', 'G2', 'list', 'map', True),
        'GM': ('G', 'M', 'map', 'list', False),
        'HM': ('H', 'M', 'map', 'list', False),
        'G2M': ('G2', 'M', 'map', 'list', False),
        'ME': ('M', 'E', 'boundaries', None, False),
    }

    def link(self, which):
        a, b, sel, out, by_name = self.LINKS[which]
        # the same function relinks: the newest source counts
        name = a + ('grains' if b[0] == 'G' else b)
        out = {} if out is None else {'type': out}
        ref, src = self.ref[a], self.ref[b]
        new = dict(src=src, type=sel, out=out, ref=by_name, name=name)

        def w():
            for i, ln in enumerate(ref.links):
                if ln['name'] == name:
                    ref.links[i] = new
                    return
            ref.links.append(new)
        self.do(['link', which], lambda: self.real[a].add_derivative(
            self.real[b], self.deriver(name), in_props={'type': sel},
            out_props=out, pass_ref=by_name), w)
        self.run.probe('stores linked')

    def grains(self):
        """A new generation of grains replaces the old one, exactly as a
        map finds its grains again."""
        g = 'g' + str(next(self.counter))
        self.new('G', g)
        self.new('H', g)
        for n in ('G', 'H'):
            self.link(n + 'M')
            if self.ref[n].has('point'):
                self.run.probe('name taken by map data')
                continue
            s = self.ref[n]
            self.do(['new grain', n], lambda n=n: self.real[n].add(
                'point', ('p', n), type='list', unit='', order=1),
                lambda s=s, n=n: s.items.__setitem__('point', Item(
                    ('p', n), dict(type='list', unit='', order=1))))
        self.link('MG')


class Missing(Exception):
    pass


class Bad(Exception):
    pass


class NoGen(Exception):
    pass


class Fails(Exception):
    pass


def execute(sc, run):
    s = Sim(run)
    for i, o in enumerate(sc['ops']):
        try:
            s.op(o)
        except Violation as v:
            raise Violation(v.kind, f'{v.msg} (operation {i})', v.where)
        run.steps += 1
    s.armed = {}
    for n in s.real:
        for k in KEYS:
            s.op(['get', n, k])
        s.op(['keys', n])
    run.key(sc['ops'])
    run.nontrivial = bool(run.faults) or \
        'derived item read' in run.probes
