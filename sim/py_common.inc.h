R"PY(
import sys, os, json, random, struct, tempfile, shutil, types, math
sys.path.insert(0, REPO)
os.environ['TMPDIR'] = '/sim/tmp'
import libgbdt, simrt

# Stand-ins for what is not installed here or does not support this interpreter.
six = types.ModuleType('six')
six.text_type = str
sys.modules['six'] = six
_l = types.ModuleType('gbdt._libgbdt')
for _n in ('init_logging', 'BucketizedFloatColumn', 'StringColumn', 'RawFloatColumn'):
    setattr(_l, _n, getattr(libgbdt, _n))
_l.libgbdt = libgbdt
sys.modules['gbdt._libgbdt'] = _l
import gbdt
from gbdt import DataStore, DataLoader, Forest

def f32(x):
    try:
        return struct.unpack('f', struct.pack('f', x))[0]
    except OverflowError:
        return math.inf if x > 0 else -math.inf

def same(a, b):
    if isinstance(a, float) and isinstance(b, float):
        return a == b or (a != a and b != b)
    return a == b

class Oracle(object):
    def __enter__(self): simrt.begin()
    def __exit__(self, *a): simrt.end()

# ---- Of pandas, numpy, matplotlib and graphviz what the package needs -------------------------
class StubMissing(AttributeError): pass

class Stub(types.ModuleType):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise StubMissing('%s.%s' % (self.__name__, k))

class Series(list):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise StubMissing('series.' + k)
    def tolist(self): return list(self)
    def astype(self, t): return Series([t(v) for v in self])
    def items(self): return iter(enumerate(self))
    @property
    def values(self): return self

class Frame(object):
    def __init__(self): self.cols, self.numeric = {}, set()
    def add(self, k, v, numeric):
        self.cols[k] = Series(v)
        if numeric: self.numeric.add(k)
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise StubMissing('frame.' + k)
    def __getitem__(self, k): return self.cols[k]
    def __setitem__(self, k, v):
        v = list(v)
        self.add(k, v, is_num(v))
    def __contains__(self, k): return k in self.cols
    def __iter__(self): return iter(list(self.cols))
    def __len__(self): return len(next(iter(self.cols.values()))) if self.cols else 0
    def keys(self): return list(self.cols)
    def items(self): return list(self.cols.items())
    @property
    def columns(self): return list(self.cols)
    def select_dtypes(self, include=None, exclude=None):
        f = Frame()
        for k, v in self.cols.items():
            if (k in self.numeric) == (include is not None): f.add(k, v, k in self.numeric)
        return f

def is_num(v): return all(isinstance(x, (int, float)) for x in v)

def data_frame(data=None, columns=None, **kw):
    if kw or (columns is not None and data is None): raise StubMissing('DataFrame(%s)' % sorted(kw))
    f = Frame()
    data = dict(data or {})
    for k in columns if columns is not None else data:
        v = list(data[k])
        f.add(k, v, is_num(v))
    return f
data_frame.from_dict = data_frame

class Arr(list):
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        raise StubMissing('array.' + k)
    def two(self, o, f):
        if isinstance(o, (list, tuple)):
            if len(o) != len(self): raise ValueError('shapes %d and %d' % (len(self), len(o)))
            return Arr(f(a, b) for a, b in zip(self, o))
        return Arr(f(a, o) for a in self)
    def __sub__(self, o): return self.two(o, lambda a, b: a - b)
    def __add__(self, o): return self.two(o, lambda a, b: a + b)
    def __radd__(self, o): return self.two(o, lambda a, b: b + a)
    def __rsub__(self, o): return self.two(o, lambda a, b: b - a)
    def __mul__(self, o): return self.two(o, lambda a, b: a * b)
    def __rmul__(self, o): return self.two(o, lambda a, b: a * b)
    def __truediv__(self, o): return self.two(o, lambda a, b: a / b)
    def __neg__(self): return Arr(-a for a in self)
    def __getitem__(self, i):
        if isinstance(i, list): return Arr(list.__getitem__(self, j) for j in i)
        if isinstance(i, slice): return Arr(list.__getitem__(self, i))
        return list.__getitem__(self, i)
    def mean(self): return sum(self) / len(self)
    def std(self):
        m = self.mean()
        return math.sqrt(sum((a - m) ** 2 for a in self) / len(self))
    def argsort(self): return Arr(sorted(range(len(self)), key=lambda i: self[i]))
    def tolist(self): return list(self)

class Drawing(object):
    """Records the calls: (name, arguments, keywords)."""
    def __init__(self): self.calls = []
    def __getattr__(self, k):
        if k.startswith('__'): raise AttributeError(k)
        def f(*a, **kw):
            self.calls.append((k, a, kw))
            return self
        return f

def stub_libraries():
    np = Stub('numpy')
    np.number = 'number'
    np.nan = math.nan
    np.array = np.asarray = lambda v: Arr(v)
    np.arange = lambda n: Arr(range(n))
    np.zeros = lambda n: Arr([0.0] * n)
    np.mean = np.average = lambda v: Arr(v).mean()
    np.std = lambda v: Arr(v).std()
    np.argsort = lambda v: Arr(v).argsort()
    np.sort = lambda v: Arr(sorted(v))
    np.log = lambda v: Arr(math.log(a) for a in v) if isinstance(v, (list, tuple)) else math.log(v)
    np.sqrt = math.sqrt
    np.isnan = math.isnan
    np.subtract = lambda a, b: Arr(a) - b
    pandas = Stub('pandas')
    pandas.DataFrame = data_frame
    plt = Drawing()
    plt.subplots = lambda *a, **k: (plt, plt)
    m = types.ModuleType('matplotlib')
    m.pyplot = plt
    g = Stub('graphviz')
    g.graphs = []
    def digraph(*a, **k):
        d = Drawing()
        g.graphs.append(d)
        return d
    g.Digraph = digraph
    sys.modules.update({'numpy': np, 'pandas': pandas, 'matplotlib': m, 'matplotlib.pyplot': plt, 'graphviz': g})
    return plt, g
)PY"
