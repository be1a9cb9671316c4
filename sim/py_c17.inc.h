R"PY(
def c17_steps(proc):
    rng = random.Random(simrt.seed('py%d' % proc))
    items = []
    # One set of names and types: every forest fits every store, so mixing them up gives numbers, not errors.
    schema = [(name, rng.choice(['bucketized_float', 'string'])) for name in rng.sample(NAMES, 3)]
    rows = rng.randint(1, 12)
    def new_store():
        n = rows if rng.random() < 0.6 else rng.randint(1, 12)
        cols = {k: (t, values(rng, t, n)) for k, t in schema}
        return [make_store(cols), cols, n]
    def new_forest(cols):
        f = forest_json(rng, cols, rng.randint(1, 5))
        # Scores that tell one forest from another.
        f['tree'][0] = {'score': f32(rng.uniform(-100, 100))}
        return [Forest(json.dumps(f)), f]
    def renew(x):
        # Another store or forest, or one that is in use elsewhere; the old ones may go, and others take their addresses.
        what = rng.randint(0, 5)
        if what in (0, 1) or 'store' not in x:
            x.pop('store', None)
            others = [y for y in items if y is not x]
            x['store'] = rng.choice(others)['store'] if others and rng.random() < 0.3 else new_store()
        if what in (1, 2) or 'forest' not in x:
            x.pop('forest', None)
            others = [y for y in items if y is not x]
            x['forest'] = rng.choice(others)['forest'] if others and rng.random() < 0.3 else new_forest(x['store'][1])
        if what == 3 and sum(1 for y in items if y['store'] is x['store'] and y['it'] is not None) == 0:
            # The same store with another column in place of one.
            ds, cols, n = x['store']
            k, t = rng.choice(schema)
            ds.erase(k)
            cols[k] = (t, values(rng, t, n))
            getattr(ds, 'add_%s_col' % t)(k, cols[k][1])
        k = len(x['forest'][1]['tree'])
        x['pts'] = [rng.randint(1, k) for _ in range(rng.randint(1, 5))]
    with Oracle():
        for i in range(simrt.knob('iters')):
            x = dict(it=None, at=0, left=rng.randint(1, 4))
            renew(x)
            items.append(x)
    faulty = simrt.knob('fault') and proc % 2 == simrt.knob('fault') % 2
    if faulty or simrt.knob('crash'): simrt.arm(1)
    while items:
        with Oracle():
            x = rng.choice(items)
            drop = rng.random() * 100 < simrt.knob('abandon')
        if x['it'] is None:
            x['it'] = x['forest'][0].predict_at_checkpoints(x['store'][0], x['pts'])
            x['at'] = 0
            continue
        err = got = None
        end = False
        try:
            if drop:
                if x['left'] % 2: x['it'].close()
                x['it'] = None
                end = True
            else:
                got = next(x['it'])
        except StopIteration:
            end = True
            x['it'] = None
            if x['at'] != len(x['pts']):
                with Oracle(): simrt.violate('C17 an iterator ends early', '%d of %r' % (x['at'], x['pts']))
        except Exception as e:
            err = e
        with Oracle():
            if err is not None:
                if not simrt.fired():
                    simrt.violate('C17 an iterator raises without a fault', repr(err))
                simrt.note('iterators_raised_by_fault')
                x['it'] = None
                end = True
            if got is not None:
                p, scores = got
                want = x['pts'][x['at']]
                if p != want: simrt.violate('C17 wrong checkpoint', '%r instead of %r' % (p, want))
                d = diff_scores(scores, scores_of(x['forest'][1], x['store'][1], x['store'][2], p), 2e-5)
                if d: simrt.violate('C17 scores of something else', 'process %d, checkpoint %d: %s' % (proc, p, d))
                x['at'] += 1
                simrt.note('checkpoints_checked')
            if end:
                x['left'] -= 1
                if x['left'] <= 0: items.remove(x)
                else: renew(x)

def c17_main(proc):
    guarded(lambda: c17_steps(proc))
)PY"
