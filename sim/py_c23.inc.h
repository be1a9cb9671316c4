R"PY(
def c23_steps():
    rng = random.Random(simrt.seed('py'))
    with Oracle():
        n = rng.randint(2, 20)
        cols = make_model(rng, n)
        ds = make_store(cols)
    def sums(node, m):
        if 'leftChild' in node:
            s = node['split']
            m[s['feature']] = m.get(s['feature'], 0.0) + float(s.get('gain', 0.0))
            sums(node['leftChild'], m)
            sums(node['rightChild'], m)
    def gains(node, kind):
        if 'leftChild' in node:
            node['split']['gain'] = rng.choice([1.0, 2.0, 0.5]) if kind == 0 else rng.uniform(0.01, 5) if kind == 1 else 10 ** rng.uniform(-15, 15)
            gains(node['leftChild'], kind)
            gains(node['rightChild'], kind)
    def check(F, text):
        got = F.feature_importance()
        names = F.features()
        with Oracle():
            m = {}
            for t in text.get('tree', []): sums(t, m)
            top = max(m.values()) if m else 1.0
            v = [x for _, x in got]
            if sorted(k for k, _ in got) != sorted(m): simrt.violate('C23 wrong importance', '%r instead of %r' % (got, m))
            if any(a < b for a, b in zip(v, v[1:])): simrt.violate('C23 wrong importance', 'out of order: %r' % (got,))
            if [k for k, _ in got] != names: simrt.violate('C23 wrong importance', '%r listed as %r' % (got, names))
            for k, x in got:
                if not abs(x - m[k] / top) <= 1e-9 * (m[k] / top): simrt.violate('C23 wrong importance', '%s %r instead of %r' % (k, x, m[k] / top))
            simrt.note('importances_checked')
    held = []
    for _ in range(simrt.knob('iters')):
        with Oracle():
            f = forest_json(rng, cols, rng.randint(0, 6))
            kind = rng.randint(0, 2)
            for t in f['tree']: gains(t, kind)
        F = Forest(json.dumps(f))
        check(F, f)
        if rng.random() < 0.4:
            with Oracle():
                feats = [k for k, (t, _) in cols.items() if t != 'raw_float']
                y = [rng.uniform(-3, 3) for _ in range(n)]
                conf = dict(num_trees=rng.randint(1, 3), num_leaves=rng.randint(1, 5), shrinkage=0.3, loss_func='mse')
            if feats:
                F = gbdt.train(ds, conf, y=y, features=feats, base_forest=F if rng.random() < 0.4 else None, num_threads=simrt.knob('nthreads'))
                with Oracle(): f = json.loads(str(F))
                check(F, f)
        held.append((F, f))
        F, f = rng.choice(held)
        check(F, f)

def c23_main():
    guarded(c23_steps)
)PY"
