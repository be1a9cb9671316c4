R"PY(
class Kept(object):
    """A column that is held, and what it must contain."""
    def __init__(self, col, name, typ, vals):
        self.col, self.name, self.typ, self.vals = col, name, typ, vals

    def check(self, rng, what, full):
        n = len(self.col)
        if n != len(self.vals): simrt.violate('C18 a held column changed its size', '%s after %s: %d rows instead of %d' % (self.name, what, n, len(self.vals)))
        idx = range(n) if full else ([rng.randint(0, n - 1)] if n else [])
        for i in idx:
            v = self.col[i]
            if not same(v, self.vals[i]): simrt.violate('C18 a held column changed', '%s after %s: row %d is %r instead of %r' % (self.name, what, i, v, self.vals[i]))
        if full:
            if self.typ == 'bucketized_float':
                b = self.col.buckets()
                for v in self.vals:
                    if v == v and not any(lo <= v <= hi for lo, hi in b):
                        simrt.violate('C18 a held column changed its buckets', '%s after %s: %r is in none of %r' % (self.name, what, v, b[:6]))
            if str(self.col) != self.name:
                simrt.violate('C18 a held column changed its name', '%s after %s' % (self.name, what))
            repr(self.col)

def c18_steps():
    stub_libraries()
    rng = random.Random(simrt.seed('py18'))
    rows = simrt.knob('rows')
    stores = []        # [store, model]
    held = []
    forests = []       # [forest, model of it, model of the store it was made for]

    def take(ds, cols, k=None):
        k = k or rng.choice(sorted(cols))
        t, v = cols[k]
        c = ds[k] if rng.random() < 0.6 else getattr(ds._data_store, 'get_%s_col' % t)(k)
        held.append(Kept(c, k, t, list(v)))

    def fresh():
        n = rng.randint(1, max(1, rows))
        cols = {}
        for name in rng.sample(NAMES, rng.randint(2, 5)):
            t = rng.choice(TYPES)
            v = float_values(rng, n) if t != 'string' else [x.strip() or 'e' for x in string_values(rng, n)]
            cols[name] = (t, v)
        return cols, n

    def loader(cols):
        a = dict(bucketized_float_cols={}, string_cols={}, raw_float_cols={})
        for k, (t, v) in cols.items(): a[t + '_cols'][k] = v
        return a

    def tsvs(cols, n):
        a = {t + '_cols': sorted(k for k in cols if cols[k][0] == t) for t in TYPES}
        return write_tsv(rng, cols, n, rng.randint(1, 3)), a

    def body():
        what = rng.choice(['dict', 'tsv', 'take', 'take', 'take', 'erase', 'erase', 'clear', 'load', 'load_bad', 'drop', 'drop',
                           'slice', 'copy', 'copy', 'add', 'add', 'temp', 'temp', 'items', 'forget', 'readd', 'train', 'predict', 'frame'])
        if not stores and what not in ('temp', 'forget', 'tsv'): what = 'dict'
        s = rng.choice(stores) if stores else None
        if what == 'dict':
            cols, n = fresh()
            stores.append([DataLoader.from_dict(**loader(cols)), cols])
        elif what == 'tsv':
            cols, n = fresh()
            f, a = tsvs(cols, n)
            stores.append([DataLoader.from_tsvs(f, **a), cols])
        elif what == 'take':
            if s[1]: take(*s)
        elif what == 'erase':
            if s[1]:
                k = rng.choice(sorted(s[1]))
                if rng.random() < 0.7: take(s[0], s[1], k)
                s[0].erase(k)
                del s[1][k]
        elif what == 'clear':
            if s[1]: take(*s)
            s[0]._data_store.clear()
            s[1].clear()
        elif what in ('load', 'load_bad'):
            if s[1]: take(*s)
            cols, n = fresh()
            f, a = tsvs(cols, n)
            if what == 'load_bad': a[rng.choice(sorted(a))].append('nosuch')
            before = simrt.fired()
            simrt.arm(1)
            try:
                s[0]._data_store.load_tsv(f, **a)
                s[1] = dict(cols)
            except Exception:
                if what == 'load' and simrt.fired() == before: raise
            simrt.arm(0)
        elif what == 'drop':
            if s[1] and rng.random() < 0.8: take(*s)
            stores.remove(s)
            s = None
        elif what == 'slice':
            n = len(s[0])
            if s[1] and n:
                idx = [rng.randint(0, n - 1) for _ in range(rng.randint(1, 6))]
                stores.append([s[0][idx], {k: (t, [v[i] for i in idx]) for k, (t, v) in s[1].items()}])
        elif what == 'copy':
            stores.append([s[0].copy(), dict(s[1])])
        elif what == 'add':
            free = [k for k in NAMES if k not in s[1]]
            if free:
                k, t = rng.choice(free), rng.choice(TYPES)
                n = len(s[0]) if s[1] else rng.randint(1, max(1, rows))
                v = values(rng, t, n)
                getattr(s[0], 'add_%s_col' % t)(k, v)
                s[1][k] = (t, v)
        elif what == 'temp':
            # The store itself is gone as soon as the column has been fetched.
            cols, n = fresh()
            k = rng.choice(sorted(cols))
            if rng.random() < 0.5:
                c = DataLoader.from_dict(**loader(cols))[k]
            else:
                f, a = tsvs(cols, n)
                c = DataLoader.from_tsvs(f, **a)[k]
            held.append(Kept(c, k, cols[k][0], list(cols[k][1])))
        elif what == 'frame':
            # To a data frame and back.
            try:
                f = s[0].to_df()
                d = DataLoader.from_df(f, {k: s[1][k][0] for k in s[1]})
            except StubMissing:
                return what
            for k in s[1]:
                if k not in f or len(f[k]) != len(s[1][k][1]) or not all(same(a, b) for a, b in zip(f[k], s[1][k][1])):
                    simrt.violate('C18 a data frame differs from the store', k)
            stores.append([d, dict(s[1])])
            simrt.note('data_frames')
        elif what == 'items':
            for k, c in list(s[0].items()):
                held.append(Kept(c, k, s[1][k][0], list(s[1][k][1])))
        elif what == 'forget':
            if held: held.pop(rng.randrange(len(held)))
        elif what == 'readd':
            # Another column of the same name takes the place of a held one.
            if s[1]:
                k = rng.choice(sorted(s[1]))
                take(s[0], s[1], k)
                n = len(s[0])
                s[0].erase(k)
                del s[1][k]
                t = rng.choice(TYPES)
                v = values(rng, t, n)
                getattr(s[0], 'add_%s_col' % t)(k, v)
                s[1][k] = (t, v)
        elif what == 'train':
            feats = [k for k in sorted(s[1]) if s[1][k][0] != 'raw_float']
            n = len(s[0])
            if feats and n:
                cfg = {'num_trees': rng.randint(1, 3), 'num_leaves': 3, 'shrinkage': 0.3, 'loss_func': 'mse', 'l2_lambda': 1.0}
                F = gbdt.train(s[0], cfg, y=[float(rng.randint(-3, 3)) for _ in range(n)], features=feats,
                               random_seed=3, num_threads=simrt.knob('nthreads'))
                forests.append([F, json.loads(str(F)), {k: (t, list(v)) for k, (t, v) in s[1].items()}])
        elif what == 'predict':
            if forests:
                F, f, cols = rng.choice(forests)
                n = len(next(iter(cols.values()))[1])
                with Oracle(): want = scores_of(f, cols, n)
                d = diff_scores(F.predict(make_store(cols)), want, 1e-5)
                if d: simrt.violate('C18 a forest changed', d)
                if rng.random() < 0.4: forests.remove(next(x for x in forests if x[0] is F))
        return what

    for step in range(simrt.knob('steps')):
        what = body()
        s = None
        for h in held: h.check(rng, what, rng.random() < 0.5)
        for ds, cols in stores:
            d = diff_store(ds, cols)
            if d: simrt.violate('C18 a store changed', 'after %s: %s' % (what, d))
        simrt.note('held_columns_read', len(held))
    stores.clear()
    while held:
        for h in held: h.check(rng, 'the end', True)
        held.pop(rng.randrange(len(held)))

def c18_main():
    guarded(c18_steps)
)PY"
