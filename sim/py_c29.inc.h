R"PY(
def c29_steps(rng, done_checks):
    """Some calls, of which some fail. Everything is let go in the end."""
    import gc
    Files.n = 0
    w = World(rng, simrt.knob('rows'))
    for _ in range(simrt.knob('steps')):
        with Oracle():
            bad = rng.random() * 100 < simrt.knob('invalid')
            what = rng.choice(['add', 'get', 'cell', 'type_of', 'erase', 'clear', 'slice', 'load_tsv', 'load_tsv', 'parse', 'predict',
                               'output', 'train', 'iterate', 'iterate', 'iterate'])
            if what == 'iterate':
                cols = dict(w.cols)
                f = forest_json(rng, cols, rng.randint(1, 4))
                F = Forest(json.dumps(f))
                k = len(f['tree'])
                pts = [rng.randint(1, k) for _ in range(rng.randint(1, 4))]
                if bad: pts[rng.randint(0, len(pts) - 1)] = k + 1      # there is no such file
                take = rng.randint(0, len(pts) + 1)
                close = rng.random() < 0.5
            else:
                call = getattr(w, what)(bad)
        ok = False
        try:
            if what == 'iterate':
                it = F.predict_at_checkpoints(w.ds, pts)
                try:
                    for _ in range(take): next(it)
                except StopIteration: pass
                if close: it.close()
                simrt.note('iterators')
            else:
                r = call.run()
                ok = True
        except Exception as e:
            e.__traceback__ = None
            simrt.note('calls_failed')
        with Oracle():
            if what != 'iterate':
                if ok and call.done and call.valid: call.done(r)
                r = call = None
            else:
                it = F = None
            simrt.note('calls')
    w.ds = w.handles = w.cols = None
    gc.collect()

def c29_main():
    import gc
    reps = simrt.knob('reps')
    blocks = []
    for i in range(reps):
        with Oracle(): rng = random.Random(simrt.seed('steps'))
        simrt.arm(1)
        c29_steps(rng, i == 0)
        simrt.arm(0)
        with Oracle():
            gc.collect()
            n = simrt.threads()
            if n > 1: simrt.violate('C29 threads left behind', '%d worker threads still run after the calls' % (n - 1))
            n = simrt.files()
            if n: simrt.violate('C29 files left open', '%d files are open after the calls' % n)
            # Faults may keep a directory from being emptied.
            left = simrt.ls('/sim/tmp/')
            if left and not simrt.fired(): simrt.violate('C29 temporary files left behind', left)
            blocks.append(simrt.heap())
    with Oracle():
        simrt.note('repeated_calls', reps)
        grown = sum(1 for i in range(2, reps) if blocks[i] > blocks[i - 1])
        if grown >= 3 and blocks[-1] > blocks[1]:
            simrt.violate('C29 memory is not given back', 'blocks in use after each of %d equal sequences of calls: %r' % (reps, blocks))
)PY"
