R"PY(
def c25_frame(c, names, rng):
    f, over = Frame(), {}
    for k in names:
        kind, v = c['columns'][k]
        if kind == 0:
            whole = all(s.isdigit() and str(int(s)) == s for s in v)
            if whole: over[k] = 'string'
            elif rng.random() < 0.2: over[k] = 'string'
            f.add(k, [int(s) for s in v] if whole else v, whole)
        else:
            numeric = rng.random() < 0.8
            if kind == 2: over[k] = rng.choice(['float', 'raw_float'])
            elif not numeric or rng.random() < 0.2: over[k] = 'bucketized_float'
            if numeric or any(x != x for x in v): f.add(k, v, numeric)
            else: f.add(k, [repr(x) if rng.random() < 0.5 else x for x in v], False)
    n = len(v) if names else 0
    if rng.random() < 0.5:
        f.add('codes', [i % 3 for i in range(n)], True)
        over['codes'] = 'string'
    return f, over

def c25_steps():
    with Oracle():
        c = json.loads(simrt.case())
        rng = random.Random(simrt.seed('py') + c['way'])
        cols = c['columns']
        kinds = {1: {}, 0: {}, 2: {}}
        names = list(cols)
        if c['way'] != 2: rng.shuffle(names)
        n = 0
        y, w = cols['target'][1], cols['weight'][1] if 'weight' in cols else []
        conf = c['config']
        if rng.random() < 0.3:
            conf['target_column'] = 'target'
            y = []
        elif c['way'] != 2 and rng.random() < 0.4:
            names.remove('target')
        if w and rng.random() < 0.4:
            conf['weight_column'] = 'weight'
            w = []
        elif w and c['way'] != 2 and rng.random() < 0.4:
            names.remove('weight')
        for k in names:
            kinds[cols[k][0]][k] = cols[k][1]
            n = len(cols[k][1])
        floats, strings, raws = kinds[1], kinds[0], kinds[2]
        feats = list(c['features'])
        rng.shuffle(feats)
    try:
        base = Forest(json.dumps(c['base'])) if c['base'] else None
        if c['way'] == 2:
            ds = DataLoader.from_tsvs(c['tsvs'], bucketized_float_cols=list(floats), string_cols=list(strings), raw_float_cols=list(raws))
        elif c['way'] == 3:
            ds = DataLoader.from_dict(bucketized_float_cols=floats, string_cols=strings, raw_float_cols=raws)
        elif c['way'] == 6:
            with Oracle():
                stub_libraries()
                f, over = c25_frame(c, names, rng)
                back = rng.random() < 0.3
            if back:
                # A frame that was made from a store.
                f = DataLoader.from_dict(bucketized_float_cols=floats, string_cols=strings, raw_float_cols=raws).to_df()
                over = {k: ['string', 'bucketized_float', 'raw_float'][cols[k][0]] for k in names if cols[k][0] != 1 or rng.random() < 0.5}
            ds = DataLoader.from_df(f, over)
            with Oracle():
                if set(names) - set(f.keys()) or set(f.keys()) != set(ds.cols()):
                    simrt.violate('C25 columns of the data frame are missing', '%s: %s' % (sorted(set(f.keys()) ^ set(ds.cols())), over))
                if 'codes' in f and [ds['codes'][i] for i in range(n)] != [str(i) for i in f['codes']]:
                    simrt.violate('C25 a column of the data frame is changed', 'codes')
        else:
            with Oracle():
                # The rows in another order, among others; then picked from there.
                extra = rng.randint(0, 3) if c['way'] == 5 else 0
                order = list(range(n)) + [rng.randrange(n) for _ in range(extra)]
                if c['way'] == 5: rng.shuffle(order)
                at = [order.index(i) for i in range(n)]
            ds = DataStore(libgbdt.DataStore())
            for k in names:
                v = [cols[k][1][i] for i in order]
                (ds.add_string_col, ds.add_bucketized_float_col, ds.add_raw_float_col)[cols[k][0]](k, v)
            if c['way'] == 5: ds = ds.slice(at)
        if simrt.knob('reuse'):
            # The same settings for another training first.
            try: gbdt.train(ds, conf, y=y, features=feats[:1], num_threads=2)
            except Exception: pass
        F = gbdt.train(ds, conf, y=y, features=feats, w=w, base_forest=base, random_seed=c['seed'], num_threads=c['threads'])
        text = str(F)
    except StubMissing as e:
        with Oracle(): simrt.result('skip ' + repr(e))
        return
    except Exception as e:
        text = None
        err = repr(e)
    with Oracle():
        simrt.result('ok ' + text if text is not None else 'error ' + err)

def c25_main():
    guarded(c25_steps)
)PY"
