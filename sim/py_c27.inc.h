R"PY(
def c27_close(a, b): return abs(a - b) <= 2e-5 * max(1.0, abs(a), abs(b))

def c27_means(f, cols, n, k, x, x0):
    t = cols[k][0]
    def at(v):
        c = dict(cols)
        c[k] = (t, [f32(v) if t != 'string' else v] * n)
        return scores_of(f, c, n)
    base = at(x0)
    out = []
    for v in x:
        d = Arr(at(v)) - base
        out.append((d.mean(), d.std()))
    return out

def c27_plot(rng, plt, F, f, ds, cols, n):
    """Plots one dependency, compares what is drawn."""
    with Oracle():
        k = rng.choice(list(cols) + ['nope'])
        t = cols[k][0] if k in cols else None
        log = False
        if t == 'string':
            x = list(dict.fromkeys(rng.choice(cols[k][1] + string_values(rng, 2)) for _ in range(rng.randint(1, 6))))
            x0 = rng.choice([None, None, rng.choice(x)] + string_values(rng, 1))
            want = c27_means(f, cols, n, k, x, x[0] if x0 is None else x0)
        else:
            x = [rng.choice([rng.uniform(-4, 4), float(rng.randint(-3, 3)), rng.uniform(0.1, 50)]) for _ in range(rng.randint(1, 8))]
            if rng.random() < 0.3:
                x = [abs(v) + 0.1 for v in x]
                log = True
            x0 = rng.choice([None, math.nan, rng.choice(x), rng.uniform(-3, 3)])
            if t == 'bucketized_float': want = c27_means(f, cols, n, k, sorted(x), math.nan if x0 is None else x0)
        asked = list(x)
        plt.calls[:] = []
        before = simrt.fired()
    try:
        gbdt.plot_partial_dependency(F, ds, k, x, x0=x0, log_scale=log)
        err = None
    except StubMissing: raise
    except Exception as e: err = e
    with Oracle():
        what = 'feature %r at %r from %r: ' % (k, asked, x0)
        if x != asked: simrt.violate('C27 plotting changes its arguments', what + repr(x))
        if t in (None, 'raw_float'):
            if not isinstance(err, ValueError) and not simrt.fired() > before: simrt.violate('C27 a feature that cannot be plotted is accepted', what + repr(err))
            return
        if err is not None:
            if simrt.fired() > before:
                simrt.note('plots_failed_by_fault')
                return
            simrt.violate('C27 plotting fails', what + repr(err))
        got = {}
        for name, a, kw in plt.calls: got.setdefault(name, (a, kw))
        if t == 'string':
            labels, h = got['set_xticklabels'][0][0], got['bar'][0][1]
            e = got['bar'][1]['yerr']
            m = dict(zip(x, want))
            if sorted(labels) != sorted(x) or len(h) != len(x): simrt.violate('C27 wrong plot', what + 'bars for %r' % (labels,))
            if any(a > b for a, b in zip(h, h[1:])): simrt.violate('C27 wrong plot', what + 'bars out of order: %r' % (h,))
            for l, v, s in zip(labels, h, e):
                if not c27_close(v, m[l][0]) or not c27_close(s, m[l][1]): simrt.violate('C27 wrong plot', what + '%r drawn as %r, %r instead of %r' % (l, v, s, m[l]))
        else:
            px, py = got['plot'][0][:2]
            bx, lo, hi = got['fill_between'][0][:3]
            xs = [math.log(v) for v in sorted(x)] if log else sorted(x)
            if list(px) != xs or list(bx) != xs or not len(py) == len(lo) == len(hi) == len(xs): simrt.violate('C27 wrong plot', what + 'drawn over %r' % (px,))
            for i, (m, s) in enumerate(want):
                if not c27_close(py[i], m) or not c27_close(lo[i], m - 1.96 * s) or not c27_close(hi[i], m + 1.96 * s):
                    simrt.violate('C27 wrong plot', what + '%r drawn as %r in %r to %r instead of %r +- 1.96 * %r' % (xs[i], py[i], lo[i], hi[i], m, s))
        simrt.note('plots_checked')

def c27_chart(plt, F, f):
    with Oracle(): plt.calls[:] = []
    F.feature_importance_bar_chart()
    with Oracle():
        got = {}
        for name, a, kw in plt.calls: got.setdefault(name, (a, kw))
        want = F.feature_importance()
        at, v = got['barh'][0][:2]
        if list(v) != [x for _, x in want] or list(got['set_yticklabels'][0][0]) != [k for k, _ in want] or list(got['set_yticks'][0][0]) != list(at) or len(set(at)) != len(want):
            simrt.violate('C27 wrong bar chart', '%r for %r' % (plt.calls, want))
        simrt.note('charts_checked')

def c27_tree(g, V, t, what):
    d = V.visualize_tree(t[0])
    with Oracle():
        labels, kids, parents = {}, {}, {}
        for name, a, kw in d.calls:
            if name == 'node':
                if a[0] in labels: simrt.violate('C27 wrong drawing', what + 'two nodes are called %r' % (a[0],))
                labels[a[0]] = kw['label'] if 'label' in kw else a[1]
            elif name == 'edge':
                kids.setdefault(a[0], []).append(a[1])
                parents.setdefault(a[1], []).append(a[0])
        roots = [n for n in labels if n not in parents]
        if len(roots) != 1: simrt.violate('C27 wrong drawing', what + 'roots %r' % (roots,))
        seen = [0]
        def shown(form, v, l): return form % v in l or form % f32(v) in l
        def check(n, node):
            seen[0] += 1
            l = labels.get(n, '')
            if not shown('%.6f', node.get('score', 0.0), l): simrt.violate('C27 wrong drawing', what + 'node %r labelled %r' % (node, l))
            if 'leftChild' in node:
                s = node['split']
                if s['feature'] not in l: simrt.violate('C27 wrong drawing', what + 'split %r labelled %r' % (s, l))
                if 'floatSplit' in s:
                    if not shown('%.3f', s['floatSplit']['threshold'], l): simrt.violate('C27 wrong drawing', what + 'split %r labelled %r' % (s, l))
                elif not all(c in l for c in s['catSplit']['category']): simrt.violate('C27 wrong drawing', what + 'split %r labelled %r' % (s, l))
                if len(kids.get(n, [])) != 2: simrt.violate('C27 wrong drawing', what + 'children %r of a split' % (kids.get(n),))
                check(kids[n][0], node['leftChild'])
                check(kids[n][1], node['rightChild'])
            elif kids.get(n): simrt.violate('C27 wrong drawing', what + 'a leaf with children')
        check(roots[0], t[1])
        if seen[0] != len(labels): simrt.violate('C27 wrong drawing', what + '%d nodes instead of %d' % (len(labels), seen[0]))
        simrt.note('drawings_checked')

def c27_steps():
    with Oracle():
        plt, g = stub_libraries()
        from gbdt._forest_visualizer import ForestVisualizer
        rng = random.Random(simrt.seed('py'))
        n = simrt.knob('rows')
        cols = {}
        while not cols: cols = make_model(rng, n)
        ds = make_store(cols)
        held = []
    libgbdt_threads = simrt.knob('nthreads')
    if rng.random() < 0.5:
        with Oracle():
            feats = [k for k, (t, _) in cols.items() if t != 'raw_float']
            y = [rng.uniform(-3, 3) for _ in range(n)]
            conf = dict(num_trees=rng.randint(1, 3), num_leaves=rng.randint(1, 5), shrinkage=0.3, loss_func='mse')
        if feats:
            F = gbdt.train(ds, conf, y=y, features=feats, num_threads=libgbdt_threads)
            with Oracle(): held.append((F, json.loads(str(F))))
    for _ in range(simrt.knob('iters')):
        with Oracle():
            if not held or rng.random() < 0.5:
                f = forest_json(rng, cols, rng.randint(1, 5))
                held.append((Forest(json.dumps(f)), f))
            F, f = rng.choice(held)
            data = {k: contents(ds[k]) for k in cols}
            simrt.arm(1)
        try:
            c27_plot(rng, plt, F, f, ds, cols, n)
        except StubMissing:
            simrt.arm(0)
            simrt.note('stub_too_small')
            continue
        with Oracle():
            simrt.arm(0)
            now = {k: contents(ds[k]) for k in ds.cols()}
            if sorted(now) != sorted(data) or any(diff_values(now[k], data[k]) for k in data): simrt.violate('C27 plotting changes the data', '%r instead of %r' % (now, data))
            simrt.note('stores_checked')
        d = diff_scores(F.predict(ds), scores_of(f, cols, n), 2e-5)
        with Oracle():
            if d: simrt.violate('C27 plotting changes the scores', d)
        try:
            c27_chart(plt, F, f)
            with Oracle(): V = ForestVisualizer(f if rng.random() < 0.1 and json.loads(str(F)) == f else F)
            if V.num_trees() != len(f['tree']):
                with Oracle(): simrt.violate('C27 wrong drawing', '%d trees instead of %d' % (V.num_trees(), len(f['tree'])))
            with Oracle():
                i = rng.randrange(len(f['tree']))
                t = json.loads(str(F))['tree'][i]
            c27_tree(g, V, (i, t), 'tree %d of %d: ' % (i, len(f['tree'])))
        except StubMissing:
            simrt.note('stub_too_small')

def c27_main():
    guarded(c27_steps)
)PY"
