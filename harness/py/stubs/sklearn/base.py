import inspect


class BaseEstimator:
    @classmethod
    def _get_param_names(cls):
        ps = inspect.signature(cls.__init__).parameters.values()
        return sorted(p.name for p in ps if p.name != "self" and p.kind not in (p.VAR_KEYWORD, p.VAR_POSITIONAL))

    def get_params(self, deep=True):
        return {n: getattr(self, n) for n in self._get_param_names()}

    def set_params(self, **kw):
        names = self._get_param_names()
        for k, v in kw.items():
            if k not in names:
                raise ValueError("invalid parameter %r" % k)
            setattr(self, k, v)
        return self


class RegressorMixin:
    pass


class ClassifierMixin:
    pass


def clone(est):
    return type(est)(**est.get_params())
