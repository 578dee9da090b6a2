"""A small model to hang components on, and a recorder that copies what it is told
to look at after every timestep."""
import itertools

import numpy as np
import pandas as pd

from pywr.core import Model, Scenario
from pywr.nodes import Input, Output, Storage, Link
from pywr.parameters import Parameter, IndexParameter, ConstantParameter, ConstantScenarioParameter
from pywr.recorders import Recorder

from .harness import require, Violation, close


class Fn(Parameter):
    """f(timestep index, scenario indices)"""

    def __init__(self, model, fn, **kw):
        super().__init__(model, **kw)
        self._fn = fn

    def value(self, ts, si):
        return self._fn(ts.index, si.indices)


class FnIndex(IndexParameter):
    def __init__(self, model, fn, **kw):
        super().__init__(model, **kw)
        self._fn = fn

    def index(self, ts, si):
        return self._fn(ts.index, si.indices)


class Grab(Recorder):
    def __init__(self, model, params=(), nodes=(), stores=(), name="grab", **kw):
        super().__init__(model, name=name, **kw)
        self.params = list(params)
        self.nodes_ = list(nodes)
        self.stores = list(stores)
        for p in self.params:
            self.children.add(p)
        self.rows = []

    def reset(self):
        self.rows = []

    def after(self):
        self.rows.append((
            [np.array(p.get_all_values()) for p in self.params],
            [np.array(p.get_all_indices()) if isinstance(p, IndexParameter) else None for p in self.params],
            [np.array(n.flow) for n in self.nodes_],
            [np.array(s.volume) for s in self.stores],
            [np.array(s.current_pc) for s in self.stores],
        ))

    # [step, item, scenario]
    def vals(self):
        return np.array([r[0] for r in self.rows])

    def idx(self, j):
        return np.array([r[1][j] for r in self.rows])

    def flow(self):
        return np.array([r[2] for r in self.rows])

    def vol(self):
        return np.array([r[3] for r in self.rows])

    def pc(self):
        return np.array([r[4] for r in self.rows])


def base(start="2000-01-01", steps=1, delta=1, S=(), end=None, link=True):
    """Model with one input feeding one output that takes nothing unless told to."""
    start = pd.Timestamp(start)
    if end is None:
        if isinstance(delta, int):
            end = start + pd.Timedelta(days=delta * steps - 1)
        else:
            end = pd.period_range(start, periods=steps, freq=delta)[-1].end_time.normalize()
    m = Model(start=start, end=end, timestep=delta)
    for i, s in enumerate(S):
        Scenario(m, "s%d" % i, **(s if isinstance(s, dict) else {"size": s}))
    if link:
        a, b = Input(m, "in", max_flow=0.0), Output(m, "out")
        a.connect(b)
    return m


def by_scenario(m, group, arr):
    return ConstantScenarioParameter(m, list(m.scenarios.scenarios)[group], list(arr))


def same(got, want, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    if got.shape != want.shape:
        return False
    with np.errstate(invalid="ignore"):
        d = np.abs(got - want) <= tol * np.maximum(1.0, np.maximum(np.abs(got), np.abs(want)))
        d &= np.isfinite(got) & np.isfinite(want)
    return bool(np.all(d | (got == want) | (np.isnan(got) & np.isnan(want))))


def require_same(got, want, what, key, tol=1e-9):
    got, want = np.asarray(got, float), np.asarray(want, float)
    require(got.shape == want.shape, lambda: "%s: shape %r, want %r" % (what, got.shape, want.shape), key)
    with np.errstate(invalid="ignore"):
        bad = ~(((np.abs(got - want) <= tol * np.maximum(1.0, np.maximum(np.abs(got), np.abs(want)))) & np.isfinite(got) & np.isfinite(want))
                | (got == want) | (np.isnan(got) & np.isnan(want)))
    if bad.any():
        i = tuple(int(k) for k in np.argwhere(bad)[0])
        raise Violation("%s: at %r got %r, want %r (%d of %d differ)"
                        % (what, i, float(got[i]), float(want[i]), int(bad.sum()), bad.size), key)
