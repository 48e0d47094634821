"""C23 worker: the Python package against direct calls of the C interface on canonical arrays.
Same arguments and report as the Rust workers (driver.rs)."""
import argparse, ctypes, gc, hashlib, json, os, sys, threading, time
import numpy as np

sys.dont_write_bytecode = True
HERE = os.path.dirname(os.path.abspath(__file__))
sys.path.insert(0, os.path.join(HERE, "stubs"))
sys.path.insert(0, os.environ["BB_PKG"])
F32 = np.float32


class Violation(Exception):
    def __init__(self, sig, detail):
        Exception.__init__(self, "%s: %s" % (sig, detail))
        self.sig, self.detail = sig, detail


class Ref:
    """The C interface, called directly with fresh contiguous arrays."""
    lib = ctypes.CDLL(os.environ["BB_REAL"])
    lib.bb_alloc.restype = ctypes.c_void_p
    lib.bb_alloc.argtypes = [ctypes.c_int]
    for n, a in dict(bb_dealloc=[ctypes.c_void_p], bb_refresh_data=[ctypes.c_void_p, ctypes.c_int], bb_train=[ctypes.c_void_p],
                     bb_set_feature_data=[ctypes.c_void_p, ctypes.c_int, ctypes.c_void_p, ctypes.c_int],
                     bb_set_config_field=[ctypes.c_void_p, ctypes.c_char_p, ctypes.c_char_p],
                     bb_predict=[ctypes.c_void_p, ctypes.c_void_p]).items():
        getattr(lib, n).argtypes = a

    def __init__(self, nf, records):
        self.nf, self.p = nf, Ref.lib.bb_alloc(nf)
        for k, v in records:
            self.must(Ref.lib.bb_set_config_field(self.p, k.encode(), v.encode()), "config %s=%s" % (k, v))

    def must(self, r, what):
        if r != 0:
            raise Violation("native-call-failed", "the C interface, called directly with valid arguments: %s returned %d" % (what, r))

    def data(self, X, cats=(), y=None):
        self.n = len(X)
        self.must(Ref.lib.bb_refresh_data(self.p, self.n), "refresh")
        for f in range(self.nf):
            c = np.array(X[:, f], dtype=F32, order="C")
            self.must(Ref.lib.bb_set_feature_data(self.p, f, c.ctypes.data, 1 if f in cats else 0), "column")
        if y is not None:
            c = np.array(y, dtype=F32).ravel()
            self.must(Ref.lib.bb_set_feature_data(self.p, self.nf, c.ctypes.data, 0), "target")
        return self

    def train(self):
        self.must(Ref.lib.bb_train(self.p), "train")
        return self

    def predict(self, X=None, cats=()):
        if X is not None:
            self.data(X, cats)
        out = np.full(self.n, np.nan, dtype=F32)
        self.must(Ref.lib.bb_predict(self.p, out.ctypes.data), "predict")
        return out

    def close(self):
        Ref.lib.bb_dealloc(self.p)


def same(a, b):
    return a.shape == b.shape and a.dtype == b.dtype and np.array_equal(a.view(np.uint32), b.view(np.uint32))


# ---------------------------------------------------------------- generation
def table(r, n, nf, max_nbins=16):
    X, cats = np.zeros((n, nf), dtype=F32), []
    for f in range(nf):
        k = r.integers(6)
        if k == 0:
            X[:, f] = r.integers(0, r.integers(2, 6), n); cats.append(f)
        elif k == 1:
            X[:, f] = r.integers(0, max_nbins * 3, n); cats.append(f)
        elif k == 2:
            X[:, f] = r.integers(0, 2, n); cats.append(f)
        elif k == 3:
            X[:, f] = r.normal(size=n).astype(F32)
        elif k == 4:
            X[:, f] = r.integers(-5, 9, n)
        else:
            X[:, f] = r.random(n).astype(F32) * F32(1000)
    if (X == X[0]).all():
        X[0, 0] = 1 - min(X[0, 0], 1)
    return X, cats


def target(r, X, binary):
    s = np.sin(X[:, 0].astype(float) * 2) + 0.4 * r.normal(size=len(X)) + (X[:, -1] > np.median(X[:, -1]))
    if binary:
        y = (s > np.median(s)).astype(F32)
        y[0], y[-1] = 0, 1
        return y
    return (s * float(r.choice([1, 1, 50, 0.01]))).astype(F32)


def settings(r, n, nf, sparse=False):
    """(python values as a user would pass them, the same records for the reference)"""
    obj = str(r.choice(["l2", "l1", "huber", "binary", "l2"]))
    pool = dict(niterations=int(r.integers(1, 8)), learning_rate=float(r.choice([1.0, 0.5, 0.1, 0.3])),
                reg_lambda=float(r.choice([0, 1, 10, 0.1])), min_examples_leaf=int(r.choice([1, 2, 5])),
                min_gain=float(r.choice([1e-6, 1e-3, 0.1])), huber_alpha=float(r.choice([0.95, 0.5, 0.9])),
                max_nbins=int(r.choice([2, 4, 8, 16, 32])), discr_nbits=int(r.choice([1, 2, 4, 8])),
                max_tree_depth=int(r.integers(1, 7)), compression_threshold=float(r.choice([0.5, 0.0, 0.25, 1.0])),
                binary_gradient_bound=float(r.choice([1.25, 2.0])), random_seed=int(r.choice([1, 2, 77, 2**63])),
                feature_fraction=float(r.choice([1.0, 1.0, 0.75])), example_fraction=float(r.choice([1.0, 0.5, 0.8])),
                sample_freq=int(r.choice([1, 2, 3])), metric_frequency=int(r.choice([1, 2, 5])))
    if nf < 3:
        pool["feature_fraction"] = 1.0
    names = [k for k in pool if r.random() < (0.4 if sparse else 0.8)]
    names = ["niterations"] + [k for k in names if k != "niterations"]
    py, rec = {}, []
    for k in names:
        v = pool[k]
        rec.append((k, ("%.9g" % v) if isinstance(v, float) else str(v)))
        form = r.integers(5)
        if form == 0:
            v = str(v)
        elif form == 1 and isinstance(v, float):
            v = np.float64(v)
        elif form == 1 and v < 2**62:
            v = np.int64(v)
        elif form == 2 and isinstance(v, float) and v == int(v):
            v = int(v)
        py[k] = v
    py["objective"] = obj.upper() if r.random() < 0.0 else obj
    rec.append(("objective", obj))
    if r.random() < 0.3:
        ms = [str(m) for m in r.choice(["l2", "rmse"], size=r.integers(1, 3), replace=False)] if obj != "binary" else ["binary_loss"]
        py["metrics"] = ",".join(ms) if r.random() < 0.4 else (ms if r.random() < 0.5 else tuple(ms))
        rec.append(("metrics", ",".join(ms)))
    return py, rec, obj == "binary"


def layout(r, A, wide):
    """An array-like with the values of A (float32), in some layout; wide: any type the estimators accept."""
    n = len(A)
    opts = ["plain", "fortran", "strided", "reversed", "view", "readonly"]
    if A.ndim == 2:
        opts += ["transposed"]
    if wide:
        opts += ["float64", "float64F", "list", "object"]
        if (A == np.round(A)).all() and np.abs(A).max() < 2**31:
            opts += ["int64", "int32"]
            if ((A == 0) | (A == 1)).all():
                opts += ["bool"]
    k = str(r.choice(opts))
    if k == "plain":
        return k, np.ascontiguousarray(A)
    if k == "fortran":
        return k, np.asfortranarray(A)
    if k == "strided":
        if A.ndim == 1:
            B = np.full(n * 3, 7e7, dtype=F32); B[1::3] = A; return k, B[1::3]
        B = np.full((n * 2, A.shape[1] * 2 + 1), 7e7, dtype=F32); B[::2, 1::2] = A; return k, B[::2, 1::2]
    if k == "reversed":
        return k, np.ascontiguousarray(A[::-1])[::-1] if A.ndim == 1 else np.ascontiguousarray(A[::-1, ::-1])[::-1, ::-1]
    if k == "view":
        if A.ndim == 1:
            B = np.full(n + 9, 7e7, dtype=F32); B[4:4 + n] = A; return k, B[4:4 + n]
        B = np.full((n + 5, A.shape[1] + 3), 7e7, dtype=F32); B[2:2 + n, 1:1 + A.shape[1]] = A; return k, B[2:2 + n, 1:1 + A.shape[1]]
    if k == "readonly":
        B = np.array(A); B.flags.writeable = False; return k, B
    if k == "transposed":
        return k, np.ascontiguousarray(A.T).T
    if k == "float64":
        return k, A.astype(np.float64)
    if k == "float64F":
        return k, np.asfortranarray(A.astype(np.float64))
    if k == "list":
        return k, [[float(v) for v in row] for row in A] if A.ndim == 2 else [float(v) for v in A]
    if k == "object":
        return k, A.astype(object)
    return k, A.astype(dict(int64=np.int64, int32=np.int32, bool=bool)[k])


def cat_form(r, cats):
    cats = list(cats)
    if cats and r.random() < 0.15:       # repeated, and beyond the columns: no effect
        cats = cats[:1] * int(r.integers(0, 9)) + [99, 1000] + cats + cats
    k = r.integers(5)
    if k == 0:
        return set(cats)
    if k == 1:
        return list(cats)
    if k == 2:
        return tuple(cats)
    if k == 3:
        return frozenset(cats)
    return list(reversed(cats))


class Case:
    def __init__(self, W, seed, index):
        self.W, self.index, self.log = W, index, []
        self.r = np.random.default_rng([seed, index])
        self.held = []          # results handed out earlier, with copies
        self.inputs = []        # arrays passed in, with copies
        self.h = hashlib.sha1()
        self.trivial = True

    def say(self, s):
        self.log.append(s)

    def give(self, a):
        self.inputs.append((a, json.dumps(a) if isinstance(a, list) else np.array(a)))
        return a

    def take(self, what, got, want, sig):
        self.W.count("predictions_compared", len(want))
        if not isinstance(got, np.ndarray) or got.dtype != F32:
            raise Violation(sig, "%s: predictions are %r" % (what, type(got)))
        if not same(got, want):
            i = int(np.argmax(got.view(np.uint32) != want.view(np.uint32))) if got.shape == want.shape else -1
            raise Violation(sig, "%s: prediction %d is %s, the C interface gives %s; shapes %s %s [%s]"
                            % (what, i, got[i] if i >= 0 else "?", want[i] if i >= 0 else "?", got.shape, want.shape, "; ".join(self.log[-14:])))
        self.held.append((got, got.copy()))
        self.h.update(want.tobytes())
        if len(want) and (want != want[0]).any():
            self.trivial = False

    def refuse(self, what, f):
        self.W.count("misuses", 1)
        self.say("misuse: " + what)
        try:
            res = f()
        except Violation:
            raise
        except Exception:
            return
        raise Violation("accepted:" + what, "%s raised nothing, returned %r [%s]" % (what, type(res), "; ".join(self.log[-14:])))

    def finish(self):
        for got, copy in self.held:
            if not same(got, copy):
                raise Violation("result-changed", "an array returned earlier was changed by a later call [%s]" % "; ".join(self.log[-14:]))
        for a, copy in self.inputs:
            if isinstance(a, list):
                ok = json.dumps(a) == copy
            else:
                ok = a.shape == copy.shape and a.dtype == copy.dtype and (np.asarray(a == copy)).all()
            if not ok:
                raise Violation("input-changed", "an array passed in was changed [%s]" % "; ".join(self.log[-14:]))


def job(c, wide, nf=None, sparse=False):
    r = c.r
    n = int(r.choice([int(r.integers(8, 60)), int(r.integers(60, 400)), 32, 64, 256, 257]))
    nf = nf or int(r.integers(1, 6))
    py, rec, binary = settings(r, n, nf, sparse)
    X, cats = table(r, n, nf, int(dict(rec).get("max_nbins", 16)))
    if r.random() < 0.15:
        cats = []
    y = target(r, X, binary)
    return dict(n=n, nf=nf, py=py, rec=rec, binary=binary, X=X, cats=cats, y=y)


def more(c, j):
    """Another table with the same columns and categories."""
    r = c.r
    m = int(r.choice([1, 2, int(r.integers(3, 80)), j["n"], j["n"] * 2 + 3]))
    X = np.stack([r.choice(j["X"][:, f], m) for f in range(j["nf"])], axis=1).astype(F32)
    return X


class RawObject:
    """One RawBitBoost with the reference it must agree with."""
    def __init__(self, c, tag):
        self.c, self.tag = c, tag
        j = self.j = job(c, False)
        self.o = c.W.Raw(j["nf"], j["n"])
        self.ref = Ref(j["nf"], j["rec"])
        self.trained = self.loaded = self.touched = False
        if c.r.random() < 0.7:
            self.o.set_config(j["py"])
        else:
            for k, v in j["py"].items():
                self.o.set_config_field(k, v)
        if c.r.random() < 0.3:      # settings given twice: the later value holds, also when it is the default
            defaults = {row[0]: row[1] for row in c.W.doc}
            for k in [k for k in j["py"] if k not in ("objective", "metrics") and c.r.random() < 0.4]:
                other = {"niterations": 3, "discr_nbits": 2, "huber_alpha": 0.7, "max_nbins": 5}.get(k, 1)
                self.o.set_config_field(k, other)
                self.ref.must(Ref.lib.bb_set_config_field(self.ref.p, k.encode(), str(other).encode()), "config")
                if c.r.random() < 0.7 and k != "niterations":
                    d = defaults[k]
                    self.o.set_config_field(k, d if c.r.random() < 0.5 else float(d) if "." in d or "e" in d else int(d))
                    self.ref.must(Ref.lib.bb_set_config_field(self.ref.p, k.encode(), d.encode()), "config")
                    other = d
                c.say("%s: config %s again, now %s" % (tag, k, other))
        c.say("%s: config %s" % (tag, j["py"]))

    def load(self):
        c, j, r = self.c, self.j, self.c.r
        self.touched = True
        if self.trained:
            j["X"] = more(c, j) if r.random() < 0.6 else j["X"]
            if len(j["X"]) < 8 or (j["X"] == j["X"][0]).all():
                j["X"] = np.concatenate([j["X"], table(r, 40, j["nf"])[0] * 0 + np.arange(40, dtype=F32)[:, None] % 3]).astype(F32)
            j["y"] = target(r, j["X"], j["binary"])
        k, X = layout(r, j["X"], False)
        k2, y = layout(r, j["y"], False)
        if r.random() < 0.1:
            k2, y = "column", j["y"].reshape(-1, 1)
        c.say("%s: data %s as %s, target as %s, categorical %s" % (self.tag, j["X"].shape, k, k2, j["cats"]))
        self.o.set_data(c.give(X), cat_form(r, j["cats"])) if j["cats"] or r.random() < 0.5 else self.o.set_data(c.give(X))
        self.o.set_target(c.give(y))
        self.ref.data(j["X"], j["cats"], j["y"])
        self.loaded = True

    def train(self):
        if not self.loaded:
            self.load()
        self.o.train()
        self.ref.train()
        self.trained = True
        self.c.W.count("trainings", 1)
        self.c.say(self.tag + ": train")

    def predict(self, fresh):
        c, j, r = self.c, self.j, self.c.r
        if fresh:
            X = more(c, j)
            k, A = layout(r, X, False)
            cats = j["cats"] if r.random() < 0.4 else []
            c.say("%s: predict %s as %s cats %s" % (self.tag, X.shape, k, cats))
            self.o.set_data(c.give(A), set(cats)) if cats else self.o.set_data(c.give(A))
            self.loaded = False
            want = self.ref.predict(X, cats)
        else:
            want = self.ref.predict()
        c.take(self.tag, self.o.predict(), want, "raw-differs")

    def misuse(self):
        c, j, r, o = self.c, self.j, self.c.r, self.o
        X, n, nf = j["X"], len(j["X"]), j["nf"]
        k = r.integers(12)
        if k == 0:
            c.refuse("unknown setting", lambda: o.set_config({"nosuch_setting": 3}))
        elif k == 1 and not self.touched:
            c.refuse("invalid value", lambda: o.set_config_field(*[("niterations", "ten"), ("niterations", -1), ("discr_nbits", "four"), ("learning_rate", "fast")][r.integers(4)]))
        elif k == 2 and self.loaded:
            c.refuse("setting after data", lambda: o.set_config_field("niterations", 3))
        elif k == 3:
            c.refuse("wrong number of columns", lambda: o.set_data(np.zeros((n, nf + 1), dtype=F32)))
        elif k == 4:
            c.refuse("wrong float type", lambda: o.set_data(X.astype(np.float64)))
        elif k == 5:
            c.refuse("not an array", lambda: o.set_data([[0.0] * nf]))
        elif k == 6 and not self.trained:
            c.refuse("predict without a model", lambda: o.predict())
        elif k == 7 and self.loaded:
            t = np.zeros(n + int(r.choice([-1, 1, 5, -n // 2])), dtype=F32)
            c.refuse("target of another length", lambda: o.set_target(t))
        elif k == 8 and self.loaded:
            v = float(r.choice([-1.0, 0.5, np.nan, 2.25]))
            col = np.zeros(n, dtype=F32); col[r.integers(n)] = v
            c.refuse("invalid category", lambda: o.set_feature_data(0, col, True))
        elif k == 9 and self.loaded:
            c.refuse("column out of range", lambda: o.set_feature_data(int(r.choice([-1, nf + 1, nf + 100])), np.zeros(n, dtype=F32), False))
        elif k == 10 and not self.touched:
            c.refuse("train without data", lambda: o.train())
        elif k == 11:
            A = X.copy(); A[0, 0] = -3
            c.refuse("invalid category in a table", lambda: o.set_data(A, {0}))
            self.touched = True
        if k not in (0, 1, 2, 6, 10):
            self.loaded = False     # what data a refused call leaves behind is not specified

    def close(self):
        c, o = self.c, self.o
        if c.r.random() < 0.5:
            o.dealloc()
            c.say(self.tag + ": dealloc")
            k = c.r.integers(4)
            if k == 0:
                c.refuse("train after dealloc", lambda: o.train())
            elif k == 1:
                c.refuse("predict after dealloc", lambda: o.predict())
            elif k == 2:
                c.refuse("dealloc twice", lambda: o.dealloc())
            else:
                c.refuse("data after dealloc", lambda: o.set_data(self.j["X"]))
        self.ref.close()
        self.o = None


def raw(c):
    objs = [RawObject(c, "#0")]
    for _ in range(int(c.r.integers(6, 22))):
        i = int(c.r.integers(len(objs)))
        o = objs[i]
        k = c.r.integers(10)
        if k == 0 and len(objs) < 3:
            objs.append(RawObject(c, "#%d" % len(objs)))
        elif k <= 2 or not o.trained:
            if c.r.random() < 0.25:
                o.misuse()
            else:
                o.train()
        elif k == 3:
            o.load()
        elif k <= 5 and o.loaded:
            o.predict(False)
        elif k <= 8:
            o.predict(True)
        else:
            o.misuse()
    for o in objs:
        o.close()


def estimator_ref(j, X=None, y=None):
    rec = j["rec"] + ([("categorical_features", ",".join(map(str, j["cats"])))] if j["cats"] else [])
    return Ref(j["nf"], rec).data(j["X"] if X is None else X, j["cats"], j["y"] if y is None else y).train()


def make_estimator(c, j):
    W, r = c.W, c.r
    cls = [W.pkg.BitBoost, W.pkg.BitBoostRegressor, W.pkg.BitBoostClassifier][r.integers(3)]
    params = dict(j["py"])
    if j["cats"] or r.random() < 0.5:
        cats = list(j["cats"])
        if cats and r.random() < 0.15:       # repeated, and beyond the columns: no effect
            cats = cats[:1] * int(r.integers(0, 9)) + [99, 1000] + cats + cats
        params["categorical_features"] = [list(cats), tuple(cats), np.array(cats, dtype=int)][r.integers(3)]
    k = r.integers(3)
    if k == 0:
        e = cls(**params)
    elif k == 1:
        e = cls()
        for n, v in params.items():
            setattr(e, n, v)
    else:
        e = cls().set_params(**params)
    c.say("%s(%s)" % (cls.__name__, params))
    return e


def estimator(c):
    r, W = c.r, c.W
    es = []
    for q in range(int(r.integers(1, 4))):
        j = job(c, True, sparse=r.random() < 0.4)
        e = make_estimator(c, j)
        if r.random() < 0.3:
            c.refuse("predict before fit", lambda: e.predict(j["X"]))
        es.append([j, e, None])
    for _ in range(int(r.integers(3, 9))):
        k = int(r.integers(len(es)))
        j, e, ref = es[k]
        if ref is None or r.random() < 0.25:
            if ref is not None:
                ref.close()
                j["y"] = target(r, j["X"], j["binary"])
                if r.random() < 0.5:   # other settings on the same estimator
                    it = int(r.integers(1, 6))
                    e.niterations = it
                    j["rec"] = [("niterations", str(it))] + [x for x in j["rec"] if x[0] != "niterations"]
            k1, X = layout(r, j["X"], True)
            k2, y = layout(r, j["y"], True)
            c.say("#%d fit %s as %s, %s" % (k, j["X"].shape, k1, k2))
            res = e.fit(c.give(X), c.give(y))
            if res is not e:
                raise Violation("fit-returns", "fit returned %r" % type(res))
            es[k][2] = ref = estimator_ref(j)
            W.count("fits", 1)
            if r.random() < 0.3:
                c.refuse("another number of columns", lambda: e.predict(np.zeros((5, j["nf"] + 1), dtype=F32)))
        X = j["X"] if r.random() < 0.4 else more(c, j)
        k1, A = layout(r, X, True)
        c.say("#%d predict %s as %s" % (k, X.shape, k1))
        c.take("estimator %d" % k, e.predict(c.give(A)), ref.predict(X), "estimator-differs")
    j, e, ref = es[0]
    k = r.integers(6)
    if k == 0:
        e.objective = "nosuch"; c.refuse("unknown objective", lambda: e.fit(j["X"], j["y"]))
    elif k == 1:
        e.discr_nbits = 3; c.refuse("invalid setting", lambda: e.fit(j["X"], j["y"]))
    elif k == 2:
        e.metrics = ["nosuch"]; c.refuse("unknown metric", lambda: e.fit(j["X"], j["y"]))
    elif k == 3:
        A = j["X"].copy(); A[0, 0] = 0.5; e.categorical_features = [0]
        c.refuse("fractional category", lambda: e.fit(A, j["y"]))
    elif k == 4:
        c.refuse("lengths that differ", lambda: e.fit(j["X"], j["y"][:-1]))
    else:
        c.refuse("unknown parameter", lambda: type(e)(nosuch_parameter=1))
    for j, e, ref in es:
        if ref is not None:
            ref.close()


def defaults(c):
    """Settings left alone are the library's own defaults, and every documented setting is offered."""
    r, W = c.r, c.W
    X, _ = table(r, int(r.integers(60, 300)), int(r.integers(1, 5)))
    y = target(r, X, False)
    e = [W.pkg.BitBoost, W.pkg.BitBoostRegressor, W.pkg.BitBoostClassifier][r.integers(3)]()
    e.fit(c.give(X), c.give(y))
    ref = Ref(X.shape[1], []).data(X, (), y).train()
    c.take("defaults", e.predict(X), ref.predict(X), "defaults-differ")
    ref.close()
    want = {}
    for row in W.doc:
        if "cli only" not in row[3]:
            want[row[0]] = row[1]
    have = e.get_params()
    if set(have) != set(want):
        raise Violation("settings-offered", "the estimators offer %s, the library documents %s" % (sorted(have), sorted(want)))
    for k, v in want.items():
        h = have[k]
        if isinstance(h, (list, tuple)):
            ok = v == "[]" and len(h) == 0
        elif isinstance(h, str):
            ok = h == v
        else:
            ok = F32(float(v)) == F32(float(h))
        if not ok:
            raise Violation("default-value", "the default of %s is %r in Python and %s in the library" % (k, h, v))
    W.count("defaults_compared", len(want))


def threads(c):
    r, W = c.r, c.W
    js = [job(c, False) for _ in range(int(r.integers(2, 5)))]
    out = [None] * len(js)

    def work(k):
        try:
            j, res = js[k], []
            for _ in range(2):
                o = W.Raw(j["nf"], j["n"])
                o.set_config(j["py"])
                o.set_data(j["X"], set(j["cats"]))
                o.set_target(j["y"])
                o.train()
                res.append(o.predict())
                o.set_data(j["X"][::-1])
                res.append(o.predict())
            out[k] = res
        except Exception as ex:
            out[k] = ex
    ts = [threading.Thread(target=work, args=(k,)) for k in range(len(js))]
    for t in ts:
        t.start()
    for t in ts:
        t.join()
    for k, j in enumerate(js):
        if isinstance(out[k], Exception):
            raise Violation("threads-error", "%r in thread %d" % (out[k], k))
        ref = Ref(j["nf"], j["rec"]).data(j["X"], j["cats"], j["y"]).train()
        want = [ref.predict(), ref.predict(j["X"][::-1])]
        for q, got in enumerate(out[k]):
            c.take("thread %d" % k, got, want[q % 2], "threads-differ")
        ref.close()
    W.count("thread_groups", 1)


class Worker:
    def __init__(self):
        import csv
        import bitboost
        from bitboost.bitboost import RawBitBoost
        self.pkg, self.Raw = bitboost, RawBitBoost
        self.shim = ctypes.CDLL(os.environ["BB_SHIM"])
        self.shim.shim_stat.restype = ctypes.c_long
        self.shim.shim_stat.argtypes = [ctypes.c_int]
        with open(os.environ["BB_DOC"]) as f:
            self.doc = list(csv.reader(f))[1:]
        self.counters = {}

    def count(self, k, n):
        self.counters[k] = self.counters.get(k, 0) + n

    def protocol(self, log):
        gc.collect()
        s = [self.shim.shim_stat(k) for k in range(11)]
        if s[3]:
            raise Violation("released-twice", "%d releases of contexts that are not alive [%s]" % (s[3], log))
        if s[2]:
            raise Violation("dead-context", "%d calls on contexts that are not alive [%s]" % (s[2], log))
        if s[9]:
            raise Violation("null-buffer", "%d calls with a null buffer [%s]" % (s[9], log))
        if s[0] != s[1]:
            raise Violation("not-released", "%d contexts made, %d released although no object is left [%s]" % (s[0], s[1], log))
        return s


def main():
    ap = argparse.ArgumentParser()
    for a in ("--seed", "--cases", "--time", "--out", "--journal", "--shard", "--tier", "--case-cpu", "--only"):
        ap.add_argument(a)
    a = ap.parse_args()
    seed, cases, tlimit = int(a.seed or 1), int(a.cases or 10), float(a.time or 1e9)
    si, sn = map(int, (a.shard or "0/1").split("/"))
    W = Worker()
    start, done, index = time.time(), 0, si
    violations, errors, distinct, samples = [], [], set(), []
    if a.only:
        seed, index = map(int, a.only.split("@"))
    while index < cases or a.only:
        if time.time() - start > tlimit:
            break
        if a.journal:
            with open(a.journal, "w") as f:
                f.write("%d@%d\n" % (seed, index))
        c = Case(W, seed, index)
        kind = [raw, estimator, raw, estimator, raw, estimator, defaults, threads][(index // 8) % 8]
        try:
            try:
                kind(c)
                c.finish()
            except Violation:
                raise
            except RuntimeError as ex:
                if "HARNESS" in str(ex):
                    raise
                raise Violation("unexpected-exception", "%r [%s]" % (ex, "; ".join(c.log[-14:])))
            except Exception as ex:
                raise Violation("unexpected-exception", "%r [%s]" % (ex, "; ".join(c.log[-14:])))
            log, h, trivial = "; ".join(c.log[-10:]), c.h.hexdigest(), c.trivial
            c = None
            W.protocol(log)
            if not trivial:
                distinct.add(h[:16])
            if len(samples) < 3:
                samples.append("%s: %s" % (kind.__name__, log[:600]))
        except Violation as v:
            violations.append(dict(sig=v.sig, detail=v.detail, case_seed="%d@%d" % (seed, index)))
            print("VIOL %s" % v, file=sys.stderr)
            break   # protocol counters are no longer meaningful
        except RuntimeError as ex:
            errors.append("%s case %d@%d" % (ex, seed, index))
            print("HARNESS-ERROR %s" % ex, file=sys.stderr)
            break
        W.count("cases_" + kind.__name__, 1)
        done += 1
        index += sn
        if a.only:
            break
    for k, name in enumerate(["contexts_made", "contexts_released", "", "", "native_refresh", "native_columns", "native_settings", "native_trainings",
                              "native_predictions", "", "native_errors"]):
        if name:
            W.count(name, W.shim.shim_stat(k))
    rep = dict(done=True, cases=done, evaluations=done, wall_s=round(time.time() - start, 2), distinct=sorted(distinct), counters=W.counters,
               maxima={}, samples=samples, violations=violations, harness_errors=errors)
    if a.out:
        with open(a.out, "w") as f:
            json.dump(rep, f)
    else:
        rep.pop("distinct")
        print(json.dumps(rep, indent=1)[:3000], file=sys.stderr)
    sys.stdout.flush()
    os._exit(3 if errors else 1 if violations else 0)


if __name__ == "__main__":
    main()
