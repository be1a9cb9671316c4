R"PY(
NAMES = ['x', 'y', 'z', 'c', 'd', 't', 'grp']
TYPES = ['bucketized_float', 'raw_float', 'string']

def float_values(rng, n, nice=False):
    pool = [f32(rng.choice([rng.randint(-20, 20), rng.uniform(-5, 5), rng.uniform(-1e9, 1e9), 0.0]))
            for _ in range(rng.randint(1, 8))]
    if not nice and rng.random() < 0.4:
        pool.append(math.nan)
    return [rng.choice(pool) for _ in range(n)]

def string_values(rng, n):
    pool = ['', 'a', 'b', 'x y', '__missing__', 'caf\u00e9', 'k' * 60, '0', 'nan']
    pool = rng.sample(pool, rng.randint(1, 5))
    return [rng.choice(pool) for _ in range(n)]

def values(rng, typ, n):
    return string_values(rng, n) if typ == 'string' else float_values(rng, n)

def make_model(rng, n):
    cols = {}
    for name in rng.sample(NAMES, rng.choice([0, 1, 1, 2, 3, 4, 5])):
        t = rng.choice(TYPES)
        cols[name] = (t, values(rng, t, n))
    return cols

def make_store(cols):
    d = libgbdt.DataStore()
    for k, (t, v) in cols.items():
        getattr(d, 'add_%s_col' % t)(k, v)
    return DataStore(d)

def contents(col):
    return [col[i] for i in range(len(col))]

def diff_values(got, want):
    if len(got) != len(want):
        return '%d rows instead of %d' % (len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if not same(a, b):
            return 'row %d is %r instead of %r' % (i, a, b)
    return ''

def diff_store(ds, cols):
    """What distinguishes a store from the model. Empty: nothing."""
    raw = ds._data_store
    by_type = {'bucketized_float': raw.bucketized_float_cols(), 'raw_float': raw.raw_float_cols(), 'string': raw.string_cols()}
    for t in TYPES:
        want = sorted(k for k, (u, _) in cols.items() if u == t)
        if sorted(by_type[t]) != want:
            return '%s columns are %r instead of %r' % (t, sorted(by_type[t]), want)
    if sorted(ds.cols()) != sorted(cols):
        return 'columns are %r instead of %r' % (sorted(ds.cols()), sorted(cols))
    n = len(next(iter(cols.values()))[1]) if cols else 0
    if len(ds) != n:
        return '%d rows instead of %d' % (len(ds), n)
    for k, (t, v) in cols.items():
        if k not in ds:
            return 'column %s is not found' % k
        if raw.get_column_type(k) != t:
            return 'column %s has type %s' % (k, raw.get_column_type(k))
        d = diff_values(contents(getattr(raw, 'get_%s_col' % t)(k)), v)
        if d:
            return 'column %s: %s' % (k, d)
    for k in NAMES:
        if k not in cols and k in ds:
            return 'column %s appeared' % k
    return ''

# ---- forests ------------------------------------------------------------------------------------
def tree_json(rng, cols, depth):
    usable = [k for k, (t, _) in cols.items() if t != 'raw_float']
    node = {'score': f32(rng.uniform(-2, 2))}
    if depth == 0 or not usable or rng.random() < 0.2:
        return node
    k = rng.choice(sorted(usable))
    t, v = cols[k]
    split = {'feature': k, 'gain': 1.0}
    if t == 'string':
        seen = sorted(set(v)) + ['unseen']
        split['catSplit'] = {'category': rng.sample(seen, rng.randint(1, len(seen)))}
    else:
        known = sorted(set(x for x in v if x == x))
        if len(known) < 2:
            return node
        # Between two neighbouring values, well away from both.
        pairs = [(a, b) for a, b in zip(known, known[1:]) if f32((a + b) / 2) not in (a, b)]
        if not pairs:
            return node
        a, b = rng.choice(pairs)
        split['floatSplit'] = {'threshold': f32((a + b) / 2), 'missingToRightChild': rng.random() < 0.5}
    node['split'] = split
    node['leftChild'] = tree_json(rng, cols, depth - 1)
    node['rightChild'] = tree_json(rng, cols, depth - 1)
    return node

def forest_json(rng, cols, trees=None):
    n = trees if trees is not None else rng.randint(1, 5)
    return {'tree': [tree_json(rng, cols, rng.randint(0, 3)) for _ in range(n)]}

def walk(node, cols, i):
    while 'leftChild' in node:
        s = node['split']
        v = cols[s['feature']][1][i]
        if 'catSplit' in s:
            left = v in s['catSplit'].get('category', [])
        elif v != v:
            left = not s['floatSplit'].get('missingToRightChild', False)
        else:
            left = v < f32(float(s['floatSplit'].get('threshold', 0.0)))
        node = node['leftChild'] if left else node['rightChild']
    return float(node.get('score', 0.0))

def scores_of(forest, cols, n, trees=None):
    ts = forest.get('tree', [])
    if trees is not None:
        ts = ts[:trees]
    return [sum(walk(t, cols, i) for t in ts) for i in range(n)]

def close(a, b, tol=1e-6):
    return a == b or abs(a - b) <= tol * max(1.0, abs(a), abs(b)) or (a != a and b != b)

def diff_scores(got, want, tol=1e-6):
    if len(got) != len(want):
        return '%d scores instead of %d' % (len(got), len(want))
    for i, (a, b) in enumerate(zip(got, want)):
        if not close(a, b, tol):
            return 'score of row %d is %r instead of %r' % (i, a, b)
    return ''

# ---- TSV files --------------------------------------------------------------------------------
class Files(object):
    n = 0

def tsv_cell(rng, v):
    if isinstance(v, str):
        return v
    return rng.choice(['nan', '?', '-']) if v != v else '%.9g' % v

def write_tsv(rng, cols, n, blocks):
    """Returns the names of the block files."""
    names = list(cols)
    cuts = sorted(rng.randint(0, n) for _ in range(blocks - 1))
    files = []
    for b, (lo, hi) in enumerate(zip([0] + cuts, cuts + [n])):
        lines = ['\t'.join(names)] if b == 0 else []
        lines += ['\t'.join(tsv_cell(rng, cols[k][1][i]) for k in names) for i in range(lo, hi)]
        Files.n += 1
        p = '/sim/data/t%d.tsv' % Files.n
        simrt.put(p, ('\n'.join(lines) + '\n').encode())
        files.append(p)
    return files

class Call(object):
    """One call: what to run, whether it must succeed, and how to check and book its result."""
    def __init__(self, name, run, valid, done=None):
        self.name, self.run, self.valid, self.done = name, run, valid, done

class World(object):
    def __init__(self, rng, rows):
        self.rng = rng
        self.rows = rows
        self.cols = make_model(rng, rows)
        self.ds = make_store(self.cols)
        self.handles = []
        self.nout = 0

    def n(self):
        return len(next(iter(self.cols.values()))[1]) if self.cols else 0

    # Each maker returns a Call. bad: with bad arguments.
    def add(self, bad):
        rng = self.rng
        t = rng.choice(TYPES)
        n = self.n() if self.cols else rng.randint(0, 12)
        free = [k for k in NAMES if k not in self.cols]
        kind = 'ok'
        if bad:
            kind = rng.choice(['name', 'length', 'type', 'both'])
        if not free and kind != 'type':
            kind = 'name'
        if kind in ('name', 'both') and not self.cols: kind = 'type'
        if kind == 'length' and not self.cols: kind = 'type'
        name = rng.choice(sorted(self.cols)) if kind in ('name', 'both') else rng.choice(free or NAMES)
        if kind in ('length', 'both'):
            n = rng.choice([n + 1, max(0, n - 1), 0, n + 7])
            if n == self.n(): n += 1
        v = values(rng, t, n)
        if kind == 'type':
            wrong = [None, 'text', {}, b'1'] if t != 'string' else [None, 3, [1], 2.5]
            v = list(v) + [rng.choice(wrong[:1] + [[]] + wrong[2:])] if rng.random() < 0.7 else rng.choice([None, 5, [None], [[]]])
        f = getattr(self.ds, 'add_%s_col' % t)
        def done(_):
            self.cols[name] = (t, list(v))
        return Call('add_%s:%s' % (t, kind), lambda: f(name, v), kind == 'ok', done)

    def get(self, bad):
        rng = self.rng
        k = rng.choice(NAMES + ['nosuch'])
        if rng.random() < 0.5:
            ok = k in self.cols
            def done(c):
                d = diff_values(contents(c), self.cols[k][1])
                if d: simrt.violate('C15 wrong column', '%s: %s' % (k, d))
                self.handles.append((c, k, self.cols[k]))
            return Call('getitem', lambda: self.ds[k], ok, done)
        t = rng.choice(TYPES)
        f = getattr(self.ds._data_store, 'get_%s_col' % t)
        ok = k in self.cols and self.cols[k][0] == t
        def done(c):
            d = diff_values(contents(c), self.cols[k][1])
            if d: simrt.violate('C15 wrong column', '%s: %s' % (k, d))
            self.handles.append((c, k, self.cols[k]))
        return Call('get_%s' % t, lambda: f(k), ok, done)

    def cell(self, bad):
        rng = self.rng
        if not self.cols: return self.get(bad)
        k = rng.choice(sorted(self.cols))
        n = self.n()
        i = rng.choice([n, n + 1, -n - 1, 2**31 - 1, -2**31, 2**31, 2**40]) if bad or not n else rng.randint(0, n - 1)
        v = self.cols[k][1]
        def done(x):
            if not same(x, v[i]): simrt.violate('C15 wrong value', 'row %d of %s is %r instead of %r' % (i, k, x, v[i]))
        c = self.ds[k]
        return Call('cell', lambda: c[i], 0 <= i < n, done)

    def type_of(self, bad):
        k = self.rng.choice(NAMES + ['nosuch', ''])
        def done(t):
            if t != self.cols[k][0]: simrt.violate('C15 wrong column type', '%s: %s instead of %s' % (k, t, self.cols[k][0]))
        return Call('get_column_type', lambda: self.ds._data_store.get_column_type(k), k in self.cols, done)

    def erase(self, bad):
        k = self.rng.choice(NAMES)
        def done(_):
            self.cols.pop(k, None)
            self.handles = [h for h in self.handles if h[1] != k]
        return Call('erase', lambda: self.ds.erase(k), True, done)

    def clear(self, bad):
        if self.rng.random() < 0.7: return self.erase(bad)
        def done(_):
            self.cols.clear()
            self.handles = []
        return Call('clear', lambda: self.ds._data_store.clear(), True, done)

    def slice(self, bad):
        rng = self.rng
        n = self.n()
        def inside(i): return 0 <= i < n
        if not n and not bad: bad = True
        idx = [rng.randint(0, n - 1) for _ in range(rng.randint(1, 6))] if n else [0]
        if bad: idx[rng.randint(0, len(idx) - 1)] = rng.choice([n, n + 5, -n - 1, 2**31])
        how = rng.randint(0, 3)
        if how == 0: idx = idx[:1]; arg = idx[0]
        elif how == 1:
            a = rng.randint(0, n); b = rng.randint(a, n) if not bad else n + rng.randint(1, 3)
            arg = (a, b); idx = list(range(a, b))
        elif how == 2: arg = idx
        else: arg = None; idx = list(range(n))
        ok = all(inside(i) for i in idx) or not self.cols
        def done(d):
            want = {k: (t, [v[i] for i in idx]) for k, (t, v) in self.cols.items()}
            x = diff_store(d, want)
            if x: simrt.violate('C15 wrong slice', '%r: %s' % (arg, x))
        return Call('slice', (lambda: self.ds[arg]) if how != 3 else self.ds.copy, ok, done)

    def load_tsv(self, bad):
        rng = self.rng
        n = rng.randint(0 if bad else 1, max(1, self.rows))
        cols = {}
        for name in rng.sample(NAMES, rng.randint(2, 5)):
            t = rng.choice(TYPES)
            v = float_values(rng, n) if t != 'string' else [x.strip() or 'e' for x in string_values(rng, n)]
            cols[name] = (t, v)
        names = sorted(cols)
        files = write_tsv(rng, cols, n, rng.randint(1, 3))
        want = {t: [k for k in names if cols[k][0] == t] for t in TYPES}
        if rng.random() < 0.2 and any(want.values()):    # requested twice: no harm
            t = rng.choice([t for t in TYPES if want[t]])
            want[t].append(want[t][0])
        kind = 'ok'
        if bad:
            kind = rng.choice(['nofile', 'noblock', 'nocol', 'short', 'garbage', 'conflict', 'none', 'dir', 'types'])
        if kind == 'nofile': files[0] = '/sim/data/missing.tsv'
        elif kind == 'noblock': files.insert(rng.randint(1, len(files)), '/sim/data/missing.tsv')
        elif kind == 'nocol': want[rng.choice(TYPES)].append('nosuch')
        elif kind in ('short', 'garbage'):
            p = files[-1]
            s = simrt.get(p)
            if kind == 'short':
                s += b'zz\n' if len(names) > 1 and not (len(files) == 1 and False) else b'zz\n'
            fl = [k for k in cols if cols[k][0] != 'string']
            if kind == 'garbage':
                if not fl: kind = 'nocol'; want['string'].append('nosuch')
                else:
                    bad_k = rng.choice(sorted(fl))
                    s += '\t'.join('1e' if k == bad_k else '1' for k in cols).encode() + b'\n'
            simrt.put(p, s)
        elif kind == 'conflict':
            ts = [t for t in TYPES if want[t]]
            t = rng.choice(ts)
            want[rng.choice([u for u in TYPES if u != t])].append(want[t][0])
        elif kind == 'none': files = []
        elif kind == 'dir':
            files[rng.randint(0, len(files) - 1)] = '/sim/data'
        def run():
            if kind == 'types':
                self.ds._data_store.load_tsv(rng.choice([None, 5, [None], 'abc' and [3]]), want['bucketized_float'])
            self.ds._data_store.load_tsv(files, bucketized_float_cols=want['bucketized_float'],
                                         raw_float_cols=want['raw_float'], string_cols=want['string'])
        def done(_):
            self.cols = cols
            self.handles = []
        return Call('load_tsv:' + kind, run, kind == 'ok', done)

    def parse(self, bad):
        rng = self.rng
        f = forest_json(rng, self.cols)
        s = json.dumps(f)
        if bad:
            kind = rng.choice(['cut', 'text', 'field', 'list', 'number', 'type'])
            if kind == 'cut': s = s[:rng.randint(1, len(s) - 1)]
            elif kind == 'text': s = s + '}'
            elif kind == 'field': s = '{"trees": []}'
            elif kind == 'list': s = '[' + s + ']'
            elif kind == 'number': s = '{"tree": [{"score": "abc"}]}'
            else: return Call('forest:type', lambda: Forest(rng.choice([None, 5, b'{}', {}])), False)
        def done(x):
            g = json.loads(str(x))
            def norm(t):
                return json.loads(json.dumps(t))
            a, b = scores_of(g, self.cols, self.n()), scores_of(f, self.cols, self.n())
            d = diff_scores(a, b, 1e-6)
            if d: simrt.violate('C15 wrong forest', 'after parsing: ' + d)
        return Call('forest', lambda: Forest(s), not bad, done)

    def misfit(self, f):
        """A forest that does not fit the store."""
        rng = self.rng
        t = f['tree'][rng.randint(0, len(f['tree']) - 1)]
        wrong = rng.choice(['nosuch', 'raw', 'kind'])
        split = {'feature': 'nosuch', 'floatSplit': {'threshold': 1.0}}
        raws = [k for k in sorted(self.cols) if self.cols[k][0] == 'raw_float']
        other = [k for k in sorted(self.cols) if self.cols[k][0] != 'raw_float']
        if wrong == 'raw' and raws: split['feature'] = rng.choice(raws)
        if wrong == 'kind' and other:
            k = rng.choice(other)
            split = {'feature': k}
            if self.cols[k][0] == 'string': split['floatSplit'] = {'threshold': 0.5}
            else: split['catSplit'] = {'category': ['a']}
        while 'leftChild' in t and rng.random() < 0.7: t = t[rng.choice(['leftChild', 'rightChild'])]
        t['split'] = split
        t['leftChild'] = {'score': 1.0}
        t['rightChild'] = {'score': 2.0}

    def predict(self, bad):
        rng = self.rng
        n = self.n()
        f = forest_json(rng, self.cols)
        ds = self.ds
        ok = not bad and bool(self.cols)
        if bad: self.misfit(f)
        F = Forest(json.dumps(f))
        # Columns are identified by what the store says about them.
        want = scores_of(f, self.cols, n) if ok else None
        if not self.cols: return Call('predict:empty', lambda: F.predict(ds), None)
        def done(s):
            d = diff_scores(s, want)
            if d: simrt.violate('C15 wrong prediction', d)
        return Call('predict', lambda: F.predict(ds), ok, done)

    def output(self, bad):
        rng = self.rng
        n = self.n()
        f = forest_json(rng, self.cols)
        trees = len(f['tree'])
        self.nout += 1
        out = '/sim/out%d' % self.nout
        pts = [rng.randint(1, trees) for _ in range(rng.randint(1, 4))]
        kind = rng.choice(['misfit', 'parent', 'file', 'occupied', 'types']) if bad else 'ok'
        if not self.cols: return Call('output:empty', lambda: None, True)
        if kind == 'misfit': self.misfit(f)
        if kind == 'parent': out = '/sim/no/such/dir'
        if kind == 'file': simrt.put(out, b'x')
        if kind == 'occupied':
            simrt.mkdir(out); simrt.mkdir(out + '/forest.%d.score' % rng.choice(pts))
        F = Forest(json.dumps(f))
        def run():
            if kind == 'types': F._forest.predict_and_output(self.ds._data_store, rng.choice([None, ['a'], 3]), out)
            F._forest.predict_and_output(self.ds._data_store, pts, out)
        def done(_):
            for p in pts:
                s = simrt.get('%s/forest.%d.score' % (out, p))
                if s is None: simrt.violate('C15 success without a score file', 'checkpoint %d of %r' % (p, pts))
                got = [float(x) for x in s.split()]
                d = diff_scores(got, scores_of(f, self.cols, n, p), 1e-4)
                if d: simrt.violate('C15 wrong score file', 'checkpoint %d: %s' % (p, d))
        return Call('output:' + kind, run, kind == 'ok', done)

    def train(self, bad):
        rng = self.rng
        n = self.n()
        feats = [k for k in sorted(self.cols) if self.cols[k][0] != 'raw_float']
        strs = [k for k in sorted(self.cols) if self.cols[k][0] == 'string']
        if not feats or n == 0:
            if not bad: return self.add(False)
        feats = rng.sample(feats, rng.randint(1, len(feats))) if feats else []
        loss = rng.choice(['mse', 'mse', 'logloss', 'huberized_hinge', 'auc', 'pairwise_logloss', 'gbrank', 'lambdamart'])
        pair = loss in ('auc', 'pairwise_logloss', 'gbrank', 'lambdamart')
        y = [float(rng.choice([-1, 1])) for _ in range(n)]
        w = [rng.choice([0.5, 1.0, 2.0]) for _ in range(n)] if rng.random() < 0.5 else []
        cfg = {'num_trees': rng.randint(1, 4), 'num_leaves': rng.randint(1, 5), 'shrinkage': 0.3, 'loss_func': loss,
               'l2_lambda': 1.0, 'example_sampling_rate': rng.choice([1, 0.7]), 'feature_sampling_rate': rng.choice([1, 0.7])}
        if pair:
            cfg['pair_sampling_rate'] = 2
            if loss == 'lambdamart': cfg['lambdamart_dcg_base'] = 1
            if strs and rng.random() < 0.7: cfg['group_column'] = rng.choice(strs)
            y = [float(rng.randint(0, 3)) for _ in range(n)]
        threads = simrt.knob('nthreads')
        base = Forest(json.dumps(forest_json(rng, self.cols))) if rng.random() < 0.3 else None
        kind = 'ok'
        target = None
        if not bad and rng.random() < 0.2 and 'tgt' not in self.cols:
            pass
        if bad:
            kind = rng.choice(['y', 'w', 'loss', 'trees', 'leaves', 'rate', 'feature', 'nofeatures', 'json', 'threads', 'target',
                               'group', 'base', 'notarget', 'class', 'rawfeature', 'types', 'pairrate', 'notype'])
        raws = [k for k in sorted(self.cols) if self.cols[k][0] == 'raw_float']
        float_f = [k for k in feats if self.cols[k][0] == 'bucketized_float']
        cat_f = [k for k in feats if self.cols[k][0] == 'string']
        if kind == 'class': cfg['loss_func'] = rng.choice(['logloss', 'huberized_hinge']); cfg.pop('group_column', None); pair = False
        if kind == 'class' and n == 0: kind = 'loss'
        if kind == 'y':
            y = y + [1.0] if rng.random() < 0.5 or n < 2 else y[:-1]
        elif kind == 'w': w = [1.0] * (n + 1) if rng.random() < 0.5 or n < 2 else [1.0] * (n - 1)
        elif kind == 'loss': cfg['loss_func'] = rng.choice(['', 'MSE', 'nosuch'])
        elif kind == 'trees': cfg['num_trees'] = rng.choice([0, -1, -2**31])
        elif kind == 'leaves': cfg['num_leaves'] = rng.choice([0, -3])
        elif kind == 'rate': cfg[rng.choice(['example_sampling_rate', 'feature_sampling_rate'])] = rng.choice([0, -0.5, 1.5, -1e30])
        elif kind == 'pairrate': cfg['loss_func'] = 'auc'; cfg['pair_sampling_rate'] = rng.choice([0, -1])
        elif kind == 'threads': threads = rng.choice([0, -1, -2**31])
        elif kind == 'target': y = []; cfg['target_column'] = rng.choice(['nosuch'] + feats)
        elif kind == 'notarget': y = []; cfg.pop('target_column', None)
        elif kind == 'group': cfg['group_column'] = rng.choice(['nosuch'] + raws + float_f)
        elif kind == 'base':
            g = forest_json(rng, self.cols); self.misfit(g); base = Forest(json.dumps(g))
        elif kind == 'class': y[rng.randint(0, n - 1)] = rng.choice([0.0, 2.0, math.nan])
        if kind in ('y', 'notarget', 'target', 'class') and n == 0: y = [1.0]
        wrapper = rng.random() < 0.5 and kind not in ('json', 'nofeatures', 'rawfeature', 'notype', 'types')
        def run():
            if wrapper:
                fs = list(feats)
                if kind == 'feature': fs.append('nosuch')
                return gbdt.train(self.ds, dict(cfg), y=y, features=fs, w=w, base_forest=base, random_seed=5, num_threads=threads)
            c = dict(cfg)
            c['float_feature'] = list(float_f)
            c['categorical_feature'] = list(cat_f)
            if kind == 'feature': c['float_feature'].append('nosuch')
            if kind == 'rawfeature': c['float_feature'].append(rng.choice(raws)) if raws else c['float_feature'].append('nosuch')
            if kind == 'nofeatures': c['float_feature'] = []; c['categorical_feature'] = []
            s = json.dumps(c)
            if kind == 'json': s = rng.choice([s[:-1], '', 'null', '[]', '{"num_trees": "x"}', s.replace('num_trees', 'no_trees')])
            a = dict(data_store=self.ds._data_store, y=y, w=w, config=s, base_forest=base._forest if base else None, random_seed=5, num_threads=threads)
            if kind == 'types': a[rng.choice(['y', 'w', 'config', 'base_forest', 'num_threads', 'data_store'])] = rng.choice([object(), [None]])
            if kind == 'notype': a.pop(rng.choice(['config', 'y']))
            return Forest(libgbdt.train(**a))
        ok = kind == 'ok'
        if kind == 'rawfeature' and raws: ok = None      # such a feature is never split on
        if self.cols and not n: ok = None
        if ok and not self.cols: ok = False
        if ok and cfg['loss_func'] == 'lambdamart': pass
        if not self.cols and kind != 'ok': ok = False
        def done(F):
            f = json.loads(str(F))
            got = F.predict(self.ds)
            want = scores_of(f, self.cols, n)
            d = diff_scores(got, want, 1e-5)
            if d: simrt.violate('C15 trained forest predicts wrongly', d)
            k = len(f.get('tree', []))
            if k < cfg['num_trees'] + 1: simrt.violate('C15 trained forest is incomplete', '%d trees for num_trees=%d' % (k, cfg['num_trees']))
        return Call('train:' + kind, run, ok, done)

    def check(self, what):
        d = diff_store(self.ds, self.cols)
        if d: simrt.violate('C15 store differs from what the calls should have made of it', 'after %s: %s' % (what, d))
        for c, k, (t, v) in self.handles:
            d = diff_values(contents(c), v)
            if d: simrt.violate('C15 a column fetched before changed', '%s after %s: %s' % (k, what, d))

def c15_steps():
    rng = random.Random(simrt.seed('py'))
    with Oracle():
        w = World(rng, simrt.knob('rows'))
        w.check('the start')
    makers = [w.add] * 4 + [w.get] * 2 + [w.cell] * 2 + [w.type_of, w.erase, w.clear, w.slice, w.slice] + \
             [w.load_tsv] * 5 + [w.parse] + [w.predict] * 2 + [w.output] * 4 + [w.train] * 4
    faulty = simrt.knob('faulty')
    for step in range(simrt.knob('steps')):
        with Oracle():
            call = rng.choice(makers)(rng.random() * 100 < simrt.knob('invalid'))
            arm = rng.random() * 100 < faulty
            before = simrt.fired()
        err = None
        res = None
        if arm: simrt.arm(1)
        try:
            res = call.run()
        except Exception as e:
            err = e
        simrt.arm(0)
        with Oracle():
            hit = simrt.fired() > before
            what = call.name + (' with faults' if hit else '')
            if os.environ.get('C15_DEBUG'): print(step, what, call.valid, repr(err)[:150])
            if err is None:
                if call.valid is False:
                    simrt.violate('C15 a bad call does not raise', what)
                if call.valid is not None and call.done: call.done(res)
                simrt.note('calls_succeeded')
            else:
                if call.valid and not hit and not (call.name.startswith('train') and 'diverges' in str(err)):
                    simrt.violate('C15 a good call raises', '%s: %r' % (what, err))
                simrt.note('calls_raised_by_fault' if call.valid else 'bad_calls_raised')
            w.check(what)

def guarded(f):
    import traceback
    try:
        f()
    except Exception:
        with Oracle():
            t = traceback.format_exc()
            if os.environ.get('C15_DEBUG'): print(t)
            simrt.error(t[-1500:])

def c15_main():
    guarded(c15_steps)
)PY"
