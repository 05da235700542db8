"""Least-squares fits of numpy.polynomial, observed. Imported before rascal, so that fits it imports by name are seen too."""
import numpy as np

LISTENERS = []


def _wrap(mod, name):
    real = getattr(mod, name)

    def observed(x, y, deg, *a, **k):
        for f in LISTENERS:
            f(x, y, deg, a, k)
        return real(x, y, deg, *a, **k)

    observed.__name__ = name
    observed.__wrapped__ = real
    setattr(mod, name, observed)


for _m, _f in (("polynomial", "polyfit"), ("legendre", "legfit"), ("chebyshev", "chebfit")):
    _wrap(getattr(np.polynomial, _m), _f)
