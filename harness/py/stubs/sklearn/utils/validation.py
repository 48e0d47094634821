import numpy as np
from ..exceptions import NotFittedError


def check_array(X, accept_sparse=False, dtype="numeric", order=None, copy=False, force_all_finite=True, ensure_2d=True,
                ensure_min_samples=1, ensure_min_features=1, **kw):
    a = np.asarray(X)
    if dtype is not None and not isinstance(dtype, str):
        a = np.asarray(X, dtype=np.dtype(dtype), order=order)
    elif order is not None:
        a = np.asarray(a, order=order)
    if copy:
        a = np.array(a, order=order)
    if ensure_2d and a.ndim != 2:
        raise ValueError("expected a 2D array, got %dD" % a.ndim)
    if a.ndim == 2 and (a.shape[0] < ensure_min_samples or a.shape[1] < ensure_min_features):
        raise ValueError("too few samples or features: %r" % (a.shape,))
    if force_all_finite and a.dtype.kind == "f" and not np.isfinite(a).all():
        raise ValueError("input contains NaN or infinity")
    return a


def column_or_1d(y, **kw):
    y = np.asarray(y)
    if y.ndim == 2 and y.shape[1] == 1:
        y = y.ravel()
    if y.ndim != 1:
        raise ValueError("y should be 1D")
    return y


def check_X_y(X, y, accept_sparse=False, dtype="numeric", order=None, y_numeric=False, **kw):
    X = check_array(X, accept_sparse=accept_sparse, dtype=dtype, order=order, **kw)
    y = column_or_1d(y)
    if y.dtype.kind == "f" and not np.isfinite(y).all():
        raise ValueError("y contains NaN or infinity")
    if X.shape[0] != y.shape[0]:
        raise ValueError("inconsistent numbers of samples: %d and %d" % (X.shape[0], y.shape[0]))
    return X, y


def check_is_fitted(est, attributes=None, **kw):
    if attributes is None:
        ok = any(k.endswith("_") and not k.startswith("__") for k in vars(est))
    else:
        names = [attributes] if isinstance(attributes, str) else list(attributes)
        ok = all(hasattr(est, n) for n in names)
    if not ok:
        raise NotFittedError("this %s instance is not fitted yet" % type(est).__name__)
