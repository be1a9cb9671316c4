R"PY(
def c30_steps():
    with Oracle():
        c = json.loads(simrt.case())
        cols = c['columns']
        kinds = {1: {}, 0: {}, 2: {}}
        for k in cols: kinds[cols[k][0]][k] = cols[k][1]
        rng = random.Random(simrt.seed('py30'))
        way = rng.randint(0, 2)
    err = None
    try:
        if way == 0:
            ds = DataLoader.from_dict(bucketized_float_cols=kinds[1], string_cols=kinds[0], raw_float_cols=kinds[2])
        elif way == 1:
            ds = DataLoader.from_tsvs(c['tsvs'], bucketized_float_cols=list(kinds[1]), string_cols=list(kinds[0]), raw_float_cols=list(kinds[2]))
        else:
            ds = DataLoader.from_dict()
            for k in cols: (ds.add_string_col, ds.add_bucketized_float_col, ds.add_raw_float_col)[cols[k][0]](k, cols[k][1])
        with open('/sim/model.json', encoding='utf-8') as f: text = f.read()
        F = Forest(text)
        scores = list(F.predict(ds))
        t1 = str(F)
        G = Forest(t1)
        again = list(G.predict(ds))
        t2 = str(G)
    except Exception as e:
        err = repr(e)
    with Oracle():
        if err: simrt.violate('C30 Python cannot use the model', err)
        if t1 != t2: simrt.violate('C30 the text of a model changes when it is read back', '')
        if again != scores: simrt.violate('C30 the model scores differently when it is read back', '')
        simrt.result(json.dumps([t1, [repr(s) for s in scores]]))

def c30_main():
    guarded(c30_steps)
)PY"
