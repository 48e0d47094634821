def check_estimator(*a, **k):
    raise NotImplementedError
