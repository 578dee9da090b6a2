"""P20: a JSON model equals the same model built in code."""
import copy
import hashlib
import itertools
import json
import os
import shutil
import tempfile
import warnings

import numpy as np
import pandas as pd

import pywr.nodes as pn
import pywr.parameters as pp
import pywr.recorders as pr
from pywr.core import Model, Scenario
from pywr.domains import groundwater, river
from pywr.nodes import NodeMeta
from pywr.parameters import Parameter, IndexParameter, control_curves as pc, licenses as pl
from pywr.parameters._parameters import parameter_registry
from pywr.recorders import Recorder
from pywr.recorders._recorders import recorder_registry
from mc.harness import Violation, require
from mc.probe import same
from mc import zoo

TECHNIQUE = ("exhaustive enumeration of documents on the real loader: every registered parameter, recorder and node type with every setting in turn, compared with the constructor "
             "given the same settings; every way of referring to a component, order of entries, split into linked files and source of data; every single corruption of a reference or key")
BOUNDS = ("66 parameter, 40 recorder and 27 node types, each setting changed alone (and required to have an effect); orders: all orders of the 5 parameters, 3 recorders and (for some) 3 nodes of a small "
          "document, reversals, rotations and (thorough) all exchanges in 15 larger ones; all 3^8 ways of referring to 8 components; 13 pieces of data in 5 kinds of file or embedded, by table or directly, "
          "relative or absolute, with 5 sets of hashes; all pairs of 24 uses of three files of one name in different folders, with right or wrong hashes; sections split over 3 files in 4^6 ways; every single unknown reference, wrong key, missing or unknown type in 18 documents; all 5^4 reference graphs of 4 parameters; the scenarios section with every slice of a grid, ensemble names and chosen combinations against the same scenarios built directly")

DEL = object()


# ---------------------------------------------------------------------------------- a model to put things in
def wave(n, k, top=1.0):
    return [round(top * ((k * i * i + 3 * i + k) % 11) / 11, 6) for i in range(n)]


STEPS = 45


def env_doc(**kw):
    d = {
        "metadata": {"title": "env", "minimum_version": "0.1"},
        "timestepper": {"start": "2015-01-20", "end": "2016-05-10", "timestep": 11},
        "scenarios": [{"name": "sA", "size": 2}, {"name": "sB", "size": 3}],
        "nodes": [
            {"type": "catchment", "name": "n_in", "flow": "p_flow"},
            {"type": "input", "name": "n_sup", "max_flow": 2.0, "cost": 3.0},
            {"type": "storage", "name": "s_res", "max_volume": 200.0, "min_volume": 5.0, "initial_volume": 120.0, "cost": -1.5},
            {"type": "storage", "name": "s_two", "max_volume": 60.0, "initial_volume": 20.0, "cost": -3.5},
            {"type": "link", "name": "n_tr", "max_flow": 1.25},
            {"type": "output", "name": "n_dem", "max_flow": "p_dem", "cost": -10.0},
            {"type": "output", "name": "n_spill", "cost": 0.5},
            {"type": "output", "name": "n_two", "max_flow": 1.0, "cost": -8.0},
        ],
        "edges": [["n_in", "s_res"], ["n_sup", "n_dem"], ["s_res", "n_dem"], ["s_res", "n_spill"], ["s_res", "n_tr"], ["n_tr", "s_two"], ["s_two", "n_two"]],
        "parameters": {
            "p_flow": {"type": "aggregated", "agg_func": "product", "parameters": ["p_season", "p_scen"]},
            "p_season": {"type": "arrayindexed", "values": wave(STEPS, 5, 9.0)},
            "p_scen": {"type": "constantscenario", "scenario": "sB", "values": [0.5, 1.0, 1.5]},
            "p_dem": {"type": "arrayindexed", "values": wave(STEPS, 2, 6.0)},
            "p_a": {"type": "arrayindexedscenario", "scenario": "sA", "values": [[x, y] for x, y in zip(wave(STEPS, 4), wave(STEPS, 7))]},
            "p_b": {"type": "arrayindexed", "values": wave(STEPS, 3)},
            "p_half": {"type": "constant", "value": 0.5},
            "p_low": {"type": "constant", "value": 0.2},
            "p_lev": {"type": "interpolatedvolume", "node": "s_res", "volumes": [0.0, 100.0, 300.0], "values": [2.0, 10.0, 20.0]},
            "i_x": {"type": "controlcurveindex", "storage_node": "s_res", "control_curves": ["p_half", 0.25]},
            "i_y": {"type": "parameterthreshold", "parameter": "p_b", "threshold": 0.4, "predicate": "GT"},
        },
        "recorders": {
            "r_spill": {"type": "numpyarraynode", "node": "n_spill"},
            "r_dem": {"type": "numpyarraynode", "node": "n_dem"},
            "r_tot": {"type": "totalflownode", "node": "n_dem"},
            "r_ev": {"type": "event", "threshold": "i_y", "tracked_parameter": "p_flow"},
        },
    }
    d.update(kw)
    return d


class Eye(Recorder):
    """values of some parameters and the state of all nodes after every step"""

    def __init__(self, model, params=()):
        super().__init__(model, name="_eye")
        self.params = list(params)
        for p in self.params:
            self.children.add(p)

    def reset(self):
        self.rows = []

    def after(self):
        m = self.model
        row = []
        for p in self.params:
            row.append(np.array(p.get_all_values()))
            if isinstance(p, IndexParameter):
                row.append(np.array(p.get_all_indices(), dtype=float))
        for n in sorted(m.nodes, key=lambda n: n.name):
            for a in ("flow", "volume"):
                if hasattr(n, a):
                    row.append(np.array(getattr(n, a), dtype=float))
        self.rows.append(row)


def look(model, params=(), recorders=()):
    eye = Eye(model, params)
    model.run()
    out = {"rows": eye.rows}
    for r in recorders:
        out["rec " + r.name] = recorded(r)
    return out


def recorded(r):
    out = {}
    for what, f in (("values", lambda: np.array(r.values(), dtype=float)), ("aggregated", lambda: r.aggregated_value()),
                    ("data", lambda: np.array(r.data, dtype=float)), ("frame", lambda: r.to_dataframe())):
        try:
            v = f()
        except (NotImplementedError, AttributeError, ValueError, TypeError) as e:
            v = type(e).__name__
        if isinstance(v, pd.DataFrame):
            out[what] = [repr(list(v.columns)), repr(list(v.index))] + [repr(x) if not isinstance(x, (int, float, np.number)) else float(x) for row in v.values for x in row]
        else:
            out[what] = v
    return out


def flat(x, path=""):
    if isinstance(x, dict):
        for k in sorted(x):
            yield from flat(x[k], "%s/%s" % (path, k))
    elif isinstance(x, (list, tuple)):
        yield path, "len %d" % len(x)
        for i, v in enumerate(x):
            yield from flat(v, "%s/%d" % (path, i))
    else:
        yield path, x


def differ(a, b, tol=1e-7):
    """first place where two observations differ, or None"""
    fa, fb = list(flat(a)), list(flat(b))
    if [k for k, _ in fa] != [k for k, _ in fb]:
        return "shape"
    for (k, x), (_, y) in zip(fa, fb):
        if isinstance(x, (str, type(None), bool)) or isinstance(y, (str, type(None), bool)):
            if x != y:
                return "%s: %r != %r" % (k, x, y)
        else:
            if np.shape(x) != np.shape(y) or not same(x, y, tol):
                return "%s: %s != %s" % (k, x, y)
    return None


def find(model, ref):
    if ref in [n.name for n in model.nodes]:
        return model.nodes[ref]
    for box in (model.parameters, model.recorders):
        if ref in [c.name for c in box]:
            return box[ref]
    if ref in [s.name for s in model.scenarios.scenarios]:
        return model.scenarios[ref]
    return None


ENVNAMES = None


def resolve(model, value):
    """objects in place of the names"""
    if isinstance(value, str) and (value[:2] in ("n_", "p_", "s_", "i_", "r_") or value in ("sA", "sB")):
        o = find(model, value)
        return o if o is not None else value
    if isinstance(value, list):
        return [resolve(model, v) for v in value]
    return value


# ---------------------------------------------------------------------------------- parameters
class Spec:
    def __init__(self, key, cls, base, *variants, ren=None, quiet=(), loud=True, js=None):
        self.key, self.cls, self.base, self.ren = key, cls, base, ren or {}
        self.variants = [dict(v) for v in variants]
        self.quiet = [dict(v) for v in quiet]     # settings without an effect on the simulation
        self.js = js or {}

    def all(self):
        return [({}, False)] + [(v, True) for v in self.variants] + [(v, False) for v in self.quiet]

    def doc(self, v):
        d = dict(self.base)
        d.update(v)
        d = {k: x for k, x in d.items() if x is not DEL}
        return d

    def make(self, model, v, **extra):
        kw = {}
        for k, x in self.doc(v).items():
            kw[self.ren.get(k, k)] = resolve(model, copy.deepcopy(x))
        kw.update(extra)
        return self.cls(model, **kw)


T12 = [0.1 * i for i in range(12)]
BND = {"lower_bounds": 0.125, "upper_bounds": 0.75}
P = []


def par(key, cls, base, *variants, **kw):
    P.append(Spec(key, cls, base, *variants, **kw))


par("constant", pp.ConstantParameter, {"value": 0.25}, {"value": 0.5}, {"scale": 2.0}, {"offset": 0.125}, {"scale": 3.0, "offset": 1.0}, {"value": -0.5},
    quiet=[{"is_variable": True}, BND])
par("arrayindexed", pp.ArrayIndexedParameter, {"values": wave(STEPS, 6)}, {"values": wave(STEPS, 7)})
par("arrayindexedscenario", pp.ArrayIndexedScenarioParameter, {"scenario": "sA", "values": [[i, 2 * i + 1] for i in range(STEPS)]},
    {"scenario": "sB", "values": [[i, 2 * i + 1, 0.5] for i in range(STEPS)]}, {"values": [[2 * i, 2 * i + 1] for i in range(STEPS)]})
par("constantscenario", pp.ConstantScenarioParameter, {"scenario": "sA", "values": [1.0, 2.0]}, {"values": [2.0, 1.0]}, {"scenario": "sB", "values": [1.0, 2.0, 4.0]})
par("constantscenarioindex", pp.ConstantScenarioIndexParameter, {"scenario": "sA", "values": [1, 2]}, {"values": [2, 1]}, {"scenario": "sB", "values": [1, 2, 4]})
par("arrayindexedscenariomonthlyfactors", pp.ArrayIndexedScenarioMonthlyFactorsParameter,
    {"scenario": "sA", "values": wave(STEPS, 6), "factors": [[1.0 + 0.1 * i for i in range(12)], T12]}, {"factors": [T12, T12]}, {"values": wave(STEPS, 5)})
par("dailyprofile", pp.DailyProfileParameter, {"values": wave(366, 6)}, {"values": wave(366, 5)})
par("weeklyprofile", pp.WeeklyProfileParameter, {"values": wave(52, 6)}, {"values": wave(53, 5)})
par("monthlyprofile", pp.MonthlyProfileParameter, {"values": T12}, {"values": T12[::-1]}, {"interp_day": "first"}, {"interp_day": "last"},
    quiet=[{"is_variable": True}, BND, {"lower_bounds": T12, "upper_bounds": [5.0] * 12}, {"interp_day": None}])
par("scenariomonthlyprofile", lambda m, scenario, values, **kw: pp.ScenarioMonthlyProfileParameter(m, scenario, np.array(values), **kw), {"scenario": "sA", "values": [T12, T12[::-1]]}, {"values": [T12[::-1], T12]})
par("scenarioweeklyprofile", pp.ScenarioWeeklyProfileParameter, {"scenario": "sA", "values": [wave(52, 6), wave(52, 3)]}, {"values": [wave(52, 3), wave(52, 6)]})
par("scenariodailyprofile", pp.ScenarioDailyProfileParameter, {"scenario": "sA", "values": [wave(366, 6), wave(366, 3)]}, {"values": [wave(366, 3), wave(366, 6)]})
par("uniformdrawdownprofile", pp.UniformDrawdownProfileParameter, {}, {"reset_day": 15}, {"reset_month": 4}, {"residual_days": 40}, {"reset_day": 3, "reset_month": 7, "residual_days": 9})
par("rbfprofile", pp.RbfProfileParameter, {"days_of_year": [1, 90, 180, 270], "values": [2.0, 3.0, 1.0, 4.0]}, {"values": [2.0, 3.0, 1.0, 3.0]},
    {"days_of_year": [1, 60, 180, 270]}, {"min_value": 1.5}, {"max_value": 2.5}, {"rbf_kwargs": {"function": "linear"}},
    quiet=[{"is_variable": True}, BND, {"variable_days_of_year_range": 5, "is_variable": True}])
par("annualharmonicseries", pp.AnnualHarmonicSeriesParameter, {"mean": 3.0, "amplitudes": [1.0, 0.5], "phases": [0.2, 0.7]}, {"mean": 2.0}, {"amplitudes": [1.0, 0.25]},
    {"phases": [0.0, 0.7]}, quiet=[{"is_variable": True, "mean_lower_bounds": 1.0, "mean_upper_bounds": 9.0}, {"amplitude_lower_bounds": 0.1, "amplitude_upper_bounds": 4.0},
                                   {"phase_lower_bounds": 0.1, "phase_upper_bounds": 1.5}])
for _f in ("sum", "min", "max", "mean", "median", "product"):
    par("aggregated", pp.AggregatedParameter, {"parameters": ["p_a", "p_b", "p_half"], "agg_func": _f}, {"parameters": ["p_b", "p_flow"]}, {"parameters": ["p_a", "p_low", "p_b"]})
par("aggregated", pp.AggregatedParameter, {"parameters": ["p_a", "p_b"], "agg_func": "sum"}, {"agg_func": "min"}, {"agg_func": "max"}, {"agg_func": "mean"}, {"agg_func": "median"},
    {"agg_func": "product"}, {"agg_func": "MAX"})
for _f in ("sum", "min", "max", "product", "any", "all"):
    par("aggregatedindex", pp.AggregatedIndexParameter, {"parameters": ["i_x", "i_y"], "agg_func": _f}, quiet=[{"parameters": ["i_y", "i_x"]}])
par("aggregatedindex", pp.AggregatedIndexParameter, {"parameters": ["i_x", "i_y"], "agg_func": "sum"}, {"agg_func": "max"}, {"agg_func": "min"}, {"agg_func": "product"}, {"agg_func": "any"}, {"agg_func": "all"})
par("indexedarray", pp.IndexedArrayParameter, {"index_parameter": "i_x", "params": ["p_a", 0.25, "p_b"]}, {"index_parameter": "i_y"}, {"params": [0.25, "p_a", "p_b"]})
par("indexedarray", lambda m, parameters, **kw: pp.IndexedArrayParameter(m, params=parameters, **kw), {"index_parameter": "i_x", "parameters": ["p_a", 0.25, "p_b"]}, {"index_parameter": "i_y"})
par("division", pp.DivisionParameter, {"numerator": "p_a", "denominator": "p_half"}, {"numerator": "p_b"}, {"denominator": "p_low"})
par("negative", pp.NegativeParameter, {"parameter": "p_a"}, {"parameter": "p_b"})
for _k in ("Max", "Min", "NegativeMax", "NegativeMin"):
    par(_k.lower(), getattr(pp, _k + "Parameter"), {"parameter": "p_a", "threshold": -0.4 if "Neg" in _k else 0.4}, {"threshold": -0.6 if "Neg" in _k else 0.6}, {"parameter": "p_b"}, {"threshold": DEL})
par("offset", pp.OffsetParameter, {"parameter": "p_a", "offset": 0.5}, {"offset": 0.25}, {"parameter": "p_b"}, {"offset": DEL}, quiet=[{"is_variable": True}, BND])
par("deficit", pp.DeficitParameter, {"node": "n_dem"}, {"node": "n_sup"})
par("flow", pp.FlowParameter, {"node": "n_dem"}, {"node": "n_spill"}, {"initial_value": 2.0})
par("storage", pp.StorageParameter, {"storage_node": "s_res"}, {"storage_node": "s_two"}, {"use_proportional_volume": True})
par("piecewiseintegralparameter", pp.PiecewiseIntegralParameter, {"parameter": "p_a", "x": [0.3, 0.6, 2.0], "y": [1.0, 3.0, 0.5]}, {"parameter": "p_b"}, {"x": [0.2, 0.6, 2.0]}, {"y": [2.0, 3.0, 0.5]})
par("flowdelay", pp.FlowDelayParameter, {"node": "n_dem", "timesteps": 2}, {"node": "n_spill"}, {"timesteps": 3}, {"timesteps": DEL, "days": 33}, {"initial_flow": 1.5})
par("discountfactor", pp.DiscountFactorParameter, {"rate": 0.035, "base_year": 2015}, {"rate": 0.05}, {"base_year": 2014})
par("rollingmeanflownode", pp.RollingMeanFlowNodeParameter, {"node": "n_dem", "timesteps": 2}, {"node": "n_spill"}, {"timesteps": 4}, {"timesteps": DEL, "days": 33}, {"initial_flow": 1.5})
par("scaledprofile", pp.ScaledProfileParameter, {"scale": 0.5, "profile": "p_b"}, {"scale": 0.25}, {"profile": "p_a"})
par("interpolated", pp.InterpolatedParameter, {"parameter": "p_a", "x": [0.0, 0.5, 1.0], "y": [1.0, 3.0, 0.0]}, {"parameter": "p_b"}, {"x": [0.0, 0.25, 1.0]}, {"y": [1.0, 2.0, 0.0]},
    {"interp_kwargs": {"kind": "nearest"}}, {"x": [0.2, 0.5, 0.8], "interp_kwargs": {"bounds_error": False, "fill_value": 7.0}})
par("interpolatedvolume", pp.InterpolatedVolumeParameter, {"node": "s_res", "volumes": [0.0, 100.0, 300.0], "values": [1.0, 3.0, 0.0]}, {"node": "s_two"}, {"volumes": [0.0, 50.0, 300.0]},
    {"values": [1.0, 2.0, 0.0]}, {"interp_kwargs": {"kind": "quadratic"}})
par("interpolatedflow", pp.InterpolatedFlowParameter, {"node": "n_dem", "flows": [0.0, 3.0, 30.0], "values": [1.0, 3.0, 0.0]}, {"node": "n_spill"}, {"flows": [0.0, 2.0, 30.0]},
    {"values": [1.0, 2.0, 0.0]}, {"interp_kwargs": {"kind": "quadratic"}})
par("interpolatedquadrature", pp.InterpolatedQuadratureParameter, {"upper_parameter": "p_a", "x": [0.0, 0.5, 1.0], "y": [1.0, 3.0, 0.0]}, {"upper_parameter": "p_b"},
    {"lower_parameter": "p_low"}, {"x": [0.0, 0.25, 1.0]}, {"y": [1.0, 2.0, 0.0]}, {"interp_kwargs": {"kind": "quadratic"}})
par("scenariowrapper", pp.ScenarioWrapperParameter, {"scenario": "sA", "parameters": ["p_a", "p_b"]}, {"parameters": ["p_b", "p_a"]}, {"scenario": "sB", "parameters": ["p_a", "p_b", "p_half"]})
_TH = ({"predicate": "LE"}, {"values": [2.0, 0.25]}, {"ratchet": True})


def thr(key, cls, base, other, **kw):
    r = [] if key.startswith("current") else [{"ratchet": True}]      # time never goes back
    par(key, cls, dict(base, values=[0.5, 2.0], predicate="GT"), {"predicate": "LE"}, {"predicate": "<"}, {"values": [3.0, 0.25]}, *r, *other, quiet=[] if r else [{"ratchet": True}], **kw)
    par(key, cls, dict(base, predicate="GT"), *other[:1], quiet=[{"predicate": "gt"}, {"predicate": ">"}], **kw)


thr("storagethreshold", pp.StorageThresholdParameter, {"storage_node": "s_res", "threshold": 110.0}, [{"threshold": 90.0}, {"storage_node": "s_two", "threshold": 30.0}],
    ren={"storage_node": "storage"})
thr("nodethreshold", pp.NodeThresholdParameter, {"node": "n_dem", "threshold": 2.5}, [{"threshold": 1.5}, {"node": "n_spill", "threshold": 0.25}, {"threshold": "p_dem"}])
thr("parameterthreshold", pp.ParameterThresholdParameter, {"parameter": "p_a", "threshold": 0.4}, [{"threshold": 0.6}, {"parameter": "p_b"}, {"threshold": "p_b"}], ren={"parameter": "param"})
par("recorderthreshold", pp.RecorderThresholdParameter, {"recorder": "r_dem", "threshold": 2.5, "values": [0.5, 2.0], "predicate": "GT"}, {"predicate": "LE"}, {"values": [3.0, 0.25]}, {"threshold": 1.5},
    {"recorder": "r_spill", "threshold": 0.5}, {"initial_value": 0}, {"threshold": "p_dem"})
thr("currentyearthreshold", pp.CurrentYearThresholdParameter, {"threshold": 2015}, [{"threshold": 2014}])
thr("currentordinaldaythreshold", pp.CurrentOrdinalDayThresholdParameter, {"threshold": 735735}, [{"threshold": 735800}])
par("multiplethresholdindex", pp.MultipleThresholdIndexParameter, {"node": "n_dem", "thresholds": [4.0, "p_half"]}, {"node": "n_in"}, {"thresholds": [3.0, 1.5]}, {"thresholds": [0.9, 0.5], "use_max_flow": True})
par("multiplethresholdparameterindex", pp.MultipleThresholdParameterIndexParameter, {"parameter": "p_a", "thresholds": [0.7, "p_half"]}, {"parameter": "p_b"}, {"thresholds": [0.8, "p_low"]})
_CC = {"storage_node": "s_res", "control_curves": ["p_half", "p_low"]}
par("controlcurveindex", pc.ControlCurveIndexParameter, _CC, {"storage_node": "s_two"}, {"control_curves": [0.6, 0.4]}, {"control_curves": ["p_half"]})
par("controlcurve", pc.ControlCurveParameter, _CC, {"values": [3.0, 2.0, 0.5]}, {"parameters": ["p_a", "p_b", "p_low"]}, {"storage_node": "s_two"}, {"control_curves": [0.6, 0.4]},
    quiet=[{"values": [3.0, 2.0, 0.5], "variable_indices": [0, 2], "lower_bounds": [0.0, 1.0], "upper_bounds": [5.0, 6.0], "is_variable": True}])
par("controlcurve", lambda m, control_curve, **kw: pc.ControlCurveParameter(m, control_curves=[control_curve], **kw), {"storage_node": "s_res", "control_curve": "p_half", "values": [3.0, 1.0]}, {"control_curve": 0.25}, {"values": [2.0, 1.0]})
par("controlcurveinterpolated", pc.ControlCurveInterpolatedParameter, dict(_CC, values=[4.0, 3.0, 1.0, 0.0]), {"values": [4.0, 2.0, 1.0, 0.0]}, {"storage_node": "s_two"}, {"control_curves": [0.6, 0.4]},
    {"values": DEL, "parameters": ["p_a", "p_b", "p_low", "p_half"]})
par("controlcurvepiecewiseinterpolated", pc.ControlCurvePiecewiseInterpolatedParameter, dict(_CC, values=[[4.0, 3.0], [2.0, 1.0], [0.5, 0.0]]), {"values": [[4.0, 3.0], [2.0, 1.5], [0.5, 0.0]]},
    {"storage_node": "s_two"}, {"control_curves": [0.6, 0.4]}, {"minimum": 0.1}, {"maximum": 0.9})
par("weightedaverageprofile", pc.WeightedAverageProfileParameter, {"storages": ["s_res", "s_two"], "profiles": [{"type": "monthlyprofile", "values": T12}, {"type": "dailyprofile", "values": wave(366, 5)}]},
    {"storages": ["s_two", "s_res"]})
par("polynomial1d", pp.Polynomial1DParameter, {"coefficients": [0.5, 0.25, 0.125], "parameter": "p_a"}, {"coefficients": [0.5, 0.5, 0.125]}, {"parameter": "p_b"}, {"parameter": DEL, "node": "n_dem"},
    {"parameter": DEL, "storage_node": "s_res"}, {"parameter": DEL, "storage_node": "s_res", "use_proportional_volume": True}, {"scale": 2.0}, {"offset": 0.5})
par("polynomial2dstorage", pp.Polynomial2DStorageParameter, {"coefficients": [[0.5, 0.25], [0.125, 0.0625]], "storage_node": "s_res", "parameter": "p_a"}, {"coefficients": [[0.5, 0.25], [0.125, 0.125]]},
    {"storage_node": "s_two"}, {"parameter": "p_b"}, {"use_proportional_volume": True}, {"storage_offset": 5.0}, {"storage_scale": 0.5}, {"parameter_offset": 0.5}, {"parameter_scale": 2.0})
par("hydropowertarget", pp.HydropowerTargetParameter, {"target": "p_half", "water_elevation_parameter": "p_lev", "density": 1.0, "energy_unit_conversion": 0.01},
    {"target": "p_a"}, {"water_elevation_parameter": "p_half"}, {"max_flow": "p_low"}, {"min_flow": "p_flow"}, {"turbine_elevation": 1.0}, {"efficiency": 0.5}, {"density": 2.0}, {"min_head": 11.0},
    {"flow_unit_conversion": 0.5}, {"energy_unit_conversion": 0.02})
par("binarystep", pp.BinaryStepParameter, {"value": 0.5}, {"value": -0.5}, {"output": 3.0}, quiet=[{"is_variable": True}, BND])
par("rectifier", pp.RectifierParameter, {"value": 0.5}, {"value": 0.25}, {"max_output": 3.0}, {"min_output": 0.25}, quiet=[{"is_variable": True}, BND])
par("logistic", pp.LogisticParameter, {"value": 0.5}, {"value": 0.25}, {"max_output": 3.0}, {"growth_rate": 2.0}, quiet=[{"is_variable": True}, BND])
par("storagelicense", pl.StorageLicense, {"node": "n_sup", "amount": 100.0}, {"amount": 50.0}, {"node": "n_dem"})
par("annuallicense", pl.AnnualLicense, {"node": "n_sup", "amount": 100.0}, {"amount": 50.0}, {"node": "n_dem"})
par("annualexponentiallicense", pl.AnnualExponentialLicense, {"node": "n_sup", "amount": 100.0, "max_value": 5.0}, {"amount": 50.0}, {"node": "n_dem"}, {"max_value": 4.0}, {"k": 2.0})
par("annualhyperbolalicense", pl.AnnualHyperbolaLicense, {"node": "n_sup", "amount": 100.0, "value": 5.0}, {"amount": 50.0}, {"node": "n_dem"}, {"value": 4.0})


def attrs(p):
    """settings which a parameter can be asked for"""
    out = {"name": p.name, "comment": p.comment, "tags": repr(p.tags), "variable": bool(p.is_variable), "class": type(p).__name__,
           "children": repr(sorted(c.name for c in p.children if not c.name.startswith("_") and "<" not in c.name)) if False else ""}
    for f in ("get_double_lower_bounds", "get_double_upper_bounds", "get_integer_lower_bounds", "get_integer_upper_bounds", "get_double_variables", "get_integer_variables"):
        try:
            v = getattr(p, f)()
            out[f] = np.array(v, dtype=float) if v is not None else None
        except (NotImplementedError, TypeError, AttributeError):
            out[f] = "none"
    return out


_BASE = {}


def param_seen(spec, v, way, extra=None):
    d = env_doc()
    extra = dict(extra or {})
    if way == "python":
        m = Model.load(d)
        doc = spec.doc(v)
        kw = {}
        for k, x in doc.items():
            x = copy.deepcopy(x)
            if isinstance(x, list) and any(isinstance(y, dict) for y in x):
                x = [pp.load_parameter(m, y) if isinstance(y, dict) else resolve(m, y) for y in x]
            kw[spec.ren.get(k, k)] = resolve(m, x)
        p = spec.cls(m, name="X", **kw, **extra)
    else:
        doc = dict(json.loads(json.dumps(spec.doc(v))), type=spec.key, **extra)
        if way == "named":
            d["parameters"]["X"] = doc
        elif way == "used":      # reached from the node first
            d["parameters"]["X"] = doc
            d["nodes"].append({"type": "input", "name": "zz", "max_flow": "X"})
        elif way == "inline":
            d["nodes"][1]["cost"] = dict(doc, name="X")
        elif way == "long":
            d["parameters"] = dict([("X", dict(doc, type=spec.cls.__name__ if isinstance(spec.cls, type) else doc["type"]))] + list(d["parameters"].items()))
        m = Model.loads(json.dumps(d))
        p = m.parameters["X"]
    if way == "inline":
        require(m.nodes["n_sup"].cost is p, "inline parameter is not the one of that name")
        m.nodes["n_sup"].cost = 3.0
    if way == "used":
        require(m.nodes["zz"].max_flow is p, "parameter is not the one referred to")
        del m.nodes["zz"]
    out = look(m, [p])
    out["attrs"] = attrs(p)
    return out


STEP_WAYS = ("named", "inline", "used", "long")


def gen_params(tier):
    for i, s in enumerate(P):
        for j in range(len(s.all())):
            yield [i, j]


def run_params(cfg, tr):
    i, j = cfg
    s = P[i]
    v, loud = s.all()[j]
    tr.step(len(STEP_WAYS) * STEPS)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = param_seen(s, v, "python")
        for way in STEP_WAYS:
            got = param_seen(s, v, way)
            w = differ(got, ref)
            require(w is None, "%s %s loaded (%s) differs from the one constructed at %s" % (s.key, s.doc(v), way, w), "params " + s.key)
            tr.state((s.key, j, way))
        if loud:
            base = param_seen(s, {}, "python")
            require(differ(base, ref) is not None, "setting %s of %s has no effect" % (v, s.key), "params " + s.key)
    tr.outcome = (s.key, j)


COMMON = [{"comment": "some words"}, {"tags": {"a": "b", "n": 3}}, {"is_variable": False}]


def gen_pcommon(tier):
    seen = set()
    for i, s in enumerate(P):
        if s.key in seen:
            continue
        seen.add(s.key)
        yield [i]


def run_pcommon(cfg, tr):
    s = P[cfg[0]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for ex in COMMON:
            ref = param_seen(s, {}, "python", ex)
            for way in ("named", "inline"):
                got = param_seen(s, {}, way, ex)
                w = differ(got["attrs"], ref["attrs"]) or differ(got, ref)
                require(w is None, "%s with %s loaded (%s) differs from the one constructed at %s" % (s.key, ex, way, w), "common " + s.key)
                tr.state((s.key, repr(ex), way))
        # a key that is none of its settings
        for way in ("named", "inline"):
            try:
                param_seen(s, {}, way, {"no_such_setting": 1})
            except Violation:
                raise
            except Exception as e:
                tr.count("refused " + type(e).__name__)
            else:
                require(False, "%s with an unknown setting is loaded (%s)" % (s.key, way), "unknown " + s.key)



# ---------------------------------------------------------------------------------- recorders
R = []


def rec(key, cls, base, *variants, **kw):
    R.append(Spec(key, cls, base, *variants, **kw))


TAF = ({"temporal_agg_func": "max"}, {"temporal_agg_func": {"func": "percentile", "args": [30]}})
_PAR = {"parameter": "param"}
rec("numpyarraynode", pr.NumpyArrayNodeRecorder, {"node": "n_dem"}, {"node": "n_spill"}, {"factor": 2.0}, *TAF, {"temporal_agg_func": "sum"}, {"temporal_agg_func": "min"}, {"temporal_agg_func": "median"})
rec("numpyarraynodecost", pr.NumpyArrayNodeCostRecorder, {"node": "n_dem"}, {"node": "n_sup"}, quiet=[{"temporal_agg_func": "max"}])
rec("numpyarraynodedeficit", pr.NumpyArrayNodeDeficitRecorder, {"node": "n_dem"}, {"node": "n_sup"}, *TAF)
rec("numpyarraynodesuppliedratio", pr.NumpyArrayNodeSuppliedRatioRecorder, {"node": "n_dem"}, {"node": "n_sup"}, {"temporal_agg_func": "min"})
rec("numpyarraynodecurtailmentratio", pr.NumpyArrayNodeCurtailmentRatioRecorder, {"node": "n_dem"}, {"node": "n_sup"}, *TAF)
rec("flowdurationcurve", pr.FlowDurationCurveRecorder, {"node": "n_dem", "percentiles": [10.0, 50.0, 90.0]}, {"node": "n_spill"}, {"percentiles": [10.0, 60.0, 90.0]}, {"agg_func": "max"}, *TAF)
rec("seasonalflowdurationcurve", pr.SeasonalFlowDurationCurveRecorder, {"node": "n_dem", "percentiles": [10.0, 50.0, 90.0], "months": [1, 2, 3]}, {"node": "n_spill"}, {"months": [6, 7]}, {"percentiles": [10.0, 60.0, 90.0]}, *TAF[:1])
_FDC = {"node": "n_dem", "percentiles": [10.0, 50.0, 90.0], "lower_target_fdc": [0.5, 1.0, 4.0], "upper_target_fdc": [1.0, 2.0, 5.0]}
rec("flowdurationcurvedeviation", pr.FlowDurationCurveDeviationRecorder, _FDC, {"node": "n_spill"}, {"lower_target_fdc": [0.6, 1.5, 4.5], "upper_target_fdc": DEL}, {"lower_target_fdc": DEL}, {"upper_target_fdc": [0.6, 1.0, 4.0]},
    {"percentiles": [5.0, 50.0, 90.0]}, {"scenario": "sB", "lower_target_fdc": [[0.5, 0.6, 0.7]] * 3, "upper_target_fdc": [[0.75, 0.8, 0.9]] * 3}, *TAF[:1])
rec("numpyarraystorage", pr.NumpyArrayStorageRecorder, {"node": "s_res"}, {"node": "s_two"}, {"proportional": True}, *TAF)
rec("numpyarraynormalisedstorage", pr.NumpyArrayNormalisedStorageRecorder, {"node": "s_res", "parameter": "p_half"}, {"node": "s_two"}, {"parameter": "p_low"}, *TAF)
rec("storagedurationcurve", pr.StorageDurationCurveRecorder, {"node": "s_res", "percentiles": [10.0, 50.0, 90.0]}, {"node": "s_two"}, {"percentiles": [10.0, 60.0, 90.0]}, *TAF)
rec("numpyarraylevel", pr.NumpyArrayLevelRecorder, {"node": "s_lev"}, *TAF)
rec("numpyarrayarea", pr.NumpyArrayAreaRecorder, {"node": "s_lev"}, *TAF)
rec("numpyarrayparameter", pr.NumpyArrayParameterRecorder, {"parameter": "p_a"}, {"parameter": "p_b"}, *TAF, ren=_PAR)
rec("numpyarrayindexparameter", pr.NumpyArrayIndexParameterRecorder, {"parameter": "i_x"}, {"parameter": "i_y"}, {"temporal_agg_func": "max"}, ren=_PAR)
rec("numpyarraydailyprofileparameter", pr.NumpyArrayDailyProfileParameterRecorder, {"parameter": "p_a"}, {"parameter": "p_b"}, {"temporal_agg_func": "max"}, ren=_PAR)
rec("rollingwindowparameter", pr.RollingWindowParameterRecorder, {"parameter": "p_a", "window": 3, "temporal_agg_func": "mean"}, {"parameter": "p_b"}, {"window": 4}, {"temporal_agg_func": "max"}, ren=_PAR)
rec("rollingmeanflownode", pr.RollingMeanFlowNodeRecorder, {"node": "n_dem", "timesteps": 2}, {"node": "n_spill"}, {"timesteps": 4}, {"timesteps": DEL, "days": 33})
rec("totalflownode", pr.TotalFlowNodeRecorder, {"node": "n_dem"}, {"node": "n_spill"}, {"factor": 2.0})
rec("meanflownode", pr.MeanFlowNodeRecorder, {"node": "n_dem"}, {"node": "n_spill"}, {"factor": 2.0})
rec("totaldeficitnode", pr.TotalDeficitNodeRecorder, {"node": "n_dem"}, {"node": "n_sup"})
rec("deficitfrequencynode", pr.DeficitFrequencyNodeRecorder, {"node": "n_dem"}, {"node": "n_sup"})
rec("minimumvolumestorage", pr.MinimumVolumeStorageRecorder, {"node": "s_res"}, {"node": "s_two"})
rec("minimumthresholdvolumestorage", pr.MinimumThresholdVolumeStorageRecorder, {"node": "s_res", "threshold": 50.0}, {"node": "s_two", "threshold": 30.0}, quiet=[{"threshold": 45.0}])
rec("timestepcountindexparameter", pr.TimestepCountIndexParameterRecorder, {"parameter": "i_x", "threshold": 1}, {"threshold": 2}, {"parameter": "i_y"})
rec("annualcountindexparameter", pr.AnnualCountIndexParameterRecorder, {"parameter": "i_x", "threshold": 1}, {"threshold": 3}, quiet=[{"parameter": "i_y"}], ren=_PAR)
rec("annualcountindexthreshold", pr.AnnualCountIndexThresholdRecorder, {"parameters": ["i_x", "i_y"], "threshold": 1}, {"threshold": 2}, {"parameters": ["i_y"]}, {"exclude_months": [1, 2, 3, 4]},
    {"include_from_month": 6, "include_from_day": 3, "include_to_month": 9, "include_to_day": 20}, {"temporal_agg_func": "max"})
rec("annualtotalflow", pr.AnnualTotalFlowRecorder, {"nodes": ["n_dem", "n_spill"]}, {"nodes": ["n_dem"]}, {"factors": [1.0, 0.5]}, {"temporal_agg_func": "max"})
rec("totalparameter", pr.TotalParameterRecorder, {"parameter": "p_a"}, {"parameter": "p_b"}, {"factor": 2.0}, {"integrate": True}, ren=_PAR)
rec("meanparameter", pr.MeanParameterRecorder, {"parameter": "p_a"}, {"parameter": "p_b"}, {"factor": 2.0}, ren=_PAR)
rec("aggregated", pr.AggregatedRecorder, {"recorders": ["r_tot", "r_dem"]}, {"recorders": ["r_tot"]}, {"recorder_agg_func": "max"}, {"agg_func": "min"}, {"recorder_agg_func": "sum", "agg_func": "min"})
rec("event", pr.EventRecorder, {"threshold": "i_x"}, {"threshold": "r_ind"}, {"minimum_event_length": 6}, {"tracked_parameter": "p_a", "event_agg_func": "mean"}, quiet=[{"agg_func": "max"}])
rec("eventduration", pr.EventDurationRecorder, {"event_recorder": "r_ev"}, {"recorder_agg_func": "sum"}, {"agg_func": "min"}, {"recorder_agg_func": "max", "agg_func": "sum"})
rec("eventstatistic", pr.EventStatisticRecorder, {"event_recorder": "r_ev"}, {"recorder_agg_func": "sum"}, {"agg_func": "min"}, {"event_agg_func": "sum"}, {"event_agg_func": "max", "recorder_agg_func": "sum", "agg_func": "min"})
_HP = {"node": "n_dem", "water_elevation_parameter": "p_lev", "density": 1.0, "energy_unit_conversion": 0.01}
for _k, _c in (("hydropower", pr.HydropowerRecorder), ("totalhydroenergy", pr.TotalHydroEnergyRecorder)):
    rec(_k, _c, _HP, {"node": "n_spill"}, {"water_elevation_parameter": "p_half"}, {"turbine_elevation": 1.0}, {"efficiency": 0.5}, {"density": 2.0}, {"flow_unit_conversion": 0.5},
        {"energy_unit_conversion": 0.02}, *([{"temporal_agg_func": "max"}] if _k == "hydropower" else []))
rec("gaussiankdestorage", pr.GaussianKDEStorageRecorder, {"node": "s_res", "target_volume_pc": 0.3}, {"node": "s_two"}, {"target_volume_pc": 0.5}, {"num_pdf": 31}, {"use_reflection": False},
    {"resample_freq": "M", "resample_func": "min"})
rec("normalisedgaussiankdestorage", pr.NormalisedGaussianKDEStorageRecorder, {"node": "s_res", "parameter": "p_half"}, {"node": "s_two"}, {"parameter": "p_low"}, {"num_pdf": 31}, {"use_reflection": False},
    {"resample_freq": "M", "resample_func": "min"})

RCOMMON = [{"comment": "some words"}, {"tags": {"a": "b"}}, {"epsilon": 0.25}, {"ignore_nan": True}, {"is_objective": "maximise"}, {"is_objective": "minimise"}, {"is_objective": "max"},
           {"constraint_lower_bounds": 0.5}, {"constraint_upper_bounds": 1.5}, {"constraint_lower_bounds": -5.0, "constraint_upper_bounds": 1.5, "is_objective": "min"},
           {"agg_func": "max"}, {"agg_func": "sum"}, {"agg_func": {"func": "percentile", "args": [25]}}]


def rattrs(r):
    out = {k: getattr(r, k) for k in ("name", "comment", "epsilon", "ignore_nan", "is_objective", "is_constraint", "constraint_lower_bounds", "constraint_upper_bounds", "is_equality_constraint",
                                      "is_double_bounded_constraint", "is_lower_bounded_constraint", "is_upper_bounded_constraint")}
    out = {k: float(v) if isinstance(v, (int, float)) and not isinstance(v, bool) else v for k, v in out.items()}
    out.update(tags=repr(r.tags), agg=repr(r.agg_func), cls=type(r).__name__)
    return out


def rec_doc():
    d = env_doc()
    d["nodes"].append({"type": "storage", "name": "s_lev", "max_volume": 20.0, "initial_volume": 6.0, "cost": -3.0, "level": "p_slev", "area": "p_sar"})
    d["nodes"].append({"type": "output", "name": "n_lev", "max_flow": "p_low", "cost": -9.0})
    d["edges"] += [["s_res", "s_lev"], ["s_lev", "n_lev"]]
    d["parameters"]["p_slev"] = {"type": "interpolatedvolume", "node": "s_lev", "volumes": [0.0, 8.0, 40.0], "values": [2.0, 10.0, 20.0]}
    d["parameters"]["p_sar"] = {"type": "interpolatedvolume", "node": "s_lev", "volumes": [0.0, 8.0, 40.0], "values": [1.0, 3.0, 4.0]}
    return d


class Ind(Recorder):
    """a recorder whose values tell of an event"""

    def setup(self):
        self.n = len(self.model.scenarios.combinations)

    def values(self):
        i = self.model.timestepper.current.index
        return [float((i + s) % 3 == 0) for s in range(self.n)]


def rec_seen(spec, v, way, extra=None):
    d = rec_doc()
    extra = dict(extra or {})
    doc = spec.doc(v)
    doc.update(extra)
    if "r_ind" in json.dumps(doc):
        recorder_registry["ind"] = Ind
        d["recorders"]["r_ind"] = {"type": "ind"}
    if way == "python":
        m = Model.load(d)
        r = spec.cls(m, **{spec.ren.get(k, k): resolve(m, copy.deepcopy(x)) for k, x in doc.items()}, name="X")
    else:
        X = dict(json.loads(json.dumps(doc)), type=spec.key)
        if way == "long":
            X["type"] = spec.cls.__name__
        if way == "first":
            d["recorders"] = dict([("X", X)] + list(d["recorders"].items()))
        else:
            d["recorders"]["X"] = X
        m = Model.loads(json.dumps(d))
        r = m.recorders["X"]
    out = look(m, (), [r])
    out["attrs"] = rattrs(r)
    return out


def gen_recs(tier):
    for i, s in enumerate(R):
        for j in range(len(s.all())):
            yield [i, j]


def run_recs(cfg, tr):
    i, j = cfg
    s = R[i]
    v, loud = s.all()[j]
    tr.step(4 * STEPS)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = rec_seen(s, v, "python")
        for way in ("named", "first", "long"):
            got = rec_seen(s, v, way)
            w = differ(got, ref)
            require(w is None, "%s %s loaded (%s) differs from the one constructed at %s" % (s.key, s.doc(v), way, w), "recs " + s.key)
            tr.state((s.key, j, way))
        if loud:
            base = rec_seen(s, {}, "python")
            require(differ(base, ref) is not None, "setting %s of %s has no effect" % (v, s.key), "recs " + s.key)
    tr.outcome = (s.key, j)


def gen_rcommon(tier):
    for i, s in enumerate(R):
        yield [i]


def run_rcommon(cfg, tr):
    s = R[cfg[0]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for ex in RCOMMON:
            if s.key in ("eventduration", "eventstatistic") and isinstance(ex.get("agg_func"), dict):
                continue        # these hand the function to pandas
            ref = rec_seen(s, {}, "python", ex)
            got = rec_seen(s, {}, "named", ex)
            w = differ(got["attrs"], ref["attrs"]) or differ(got, ref)
            require(w is None, "%s with %s loaded differs from the one constructed at %s" % (s.key, ex, w), "rcommon " + s.key)
            tr.state((s.key, repr(ex)))
        try:
            rec_seen(s, {}, "named", {"no_such_setting": 1})
        except Violation:
            raise
        except Exception as e:
            tr.count("refused " + type(e).__name__)
        else:
            require(False, "%s with an unknown setting is loaded" % s.key, "unknown " + s.key)


GROUPS = {"params": (gen_params, run_params), "pcommon": (gen_pcommon, run_pcommon), "recs": (gen_recs, run_recs), "rcommon": (gen_rcommon, run_rcommon)}


# ---------------------------------------------------------------------------------- nodes
N = []
KINDS = {"input": [["X", "n_x"]], "output": [["s_res", "X"]], "link": [["s_res", "X"], ["X", "n_x"]], "storage": [["n_y", "X"], ["X", "n_x"]], "none": []}


def nod(key, cls, kind, base, *variants, later=(), edges=None, **kw):
    s = Spec(key, cls, base, *variants, **kw)
    s.later, s.edges = later, edges or KINDS[kind]
    N.append(s)


_NV = ({"max_flow": "p_a"}, {"max_flow": 1.5}, {"cost": 20.0}, {"cost": "p_neg"})
nod("input", pn.Input, "input", {"max_flow": 2.0, "cost": 0.5}, {"max_flow": "p_a"}, {"max_flow": 1.5}, {"cost": 20.0}, {"cost": "p_swing"}, {"min_flow": 1.0, "cost": 20.0},
    {"min_flow": "p_low", "cost": 20.0}, {"max_flow": "p_scen"})
nod("output", pn.Output, "output", {"max_flow": 2.0, "cost": -9.0}, {"max_flow": "p_a"}, {"max_flow": 1.5}, {"cost": 20.0}, {"cost": "p_swing"}, {"min_flow": "p_low", "cost": 20.0})
nod("link", pn.Link, "link", {"max_flow": 1.0}, {"max_flow": "p_a"}, {"max_flow": 0.5}, {"cost": 20.0}, {"cost": "p_swing"}, {"min_flow": "p_low", "cost": 20.0}, {"max_flow": DEL})
nod("river", river.River, "link", {"max_flow": 1.0}, {"max_flow": "p_a"}, {"cost": 20.0}, {"min_flow": "p_low", "cost": 20.0})
nod("breaklink", pn.BreakLink, "link", {"max_flow": 1.0}, {"max_flow": "p_a"}, {"cost": 20.0}, {"cost": "p_swing"}, {"min_flow": "p_low", "cost": 20.0})
nod("losslink", pn.LossLink, "link", {"max_flow": 1.0, "loss_factor": 0.25}, {"loss_factor": 0.5}, {"loss_factor": "p_half"}, {"loss_factor_type": "gross"}, {"max_flow": "p_a"}, {"cost": 20.0},
    {"min_flow": "p_low", "cost": 20.0}, {"loss_factor": 0.0}, {"loss_factor": 1.0, "loss_factor_type": "gross"})
nod("delaynode", pn.DelayNode, "link", {"timesteps": 2}, {"timesteps": 3}, {"timesteps": DEL, "days": 44}, {"initial_flow": 1.5}, edges=[["s_res", "X"], ["X", "n_spill"]])
nod("piecewiselink", pn.PiecewiseLink, "link", {"nsteps": 2, "max_flows": [0.5, 1.0], "costs": [-3.0, 1.0]}, {"max_flows": [0.25, 1.0]}, {"max_flows": ["p_low", "p_a"]}, {"costs": [-3.0, 20.0]},
    {"costs": [-3.0, "p_swing"]}, {"nsteps": 3, "max_flows": [0.5, 0.25, 0.5], "costs": [-3.0, 0.5, 20.0]}, {"max_flows": [0.5, None]})
_EX = [["s_res", "X"], ["X", "n_x", "up", None], ["X", "n_z", "side", None]]
nod("multisplitlink", pn.MultiSplitLink, "link", {"nsteps": 1, "max_flows": [2.0, 1.0], "costs": [-3.0, 1.0], "extra_slots": 1, "slot_names": ["up", "side"]}, {"max_flows": [2.0, "p_a"]}, {"costs": [-3.0, 20.0]},
    {"factors": [1.0, 0.5]}, {"factors": [2.0, 3.0]}, edges=_EX)
nod("riversplit", river.RiverSplit, "link", {"factors": [1.0, 0.5], "slot_names": ["up", "side"]}, {"factors": [1.0, 0.25]}, {"max_flows": [0.5]}, {"costs": [20.0]}, edges=_EX)
nod("riversplitwithgauge", river.RiverSplitWithGauge, "link", {"factors": [1.0, 0.5], "slot_names": ["up", "side"], "mrf": 0.25, "mrf_cost": -4.0}, {"factors": [1.0, 0.25]}, {"mrf": 0.5}, {"mrf": "p_a"},
    {"mrf_cost": 20.0}, {"mrf_cost": "p_swing"}, {"cost": 20.0}, {"cost": "p_swing"}, edges=_EX)
nod("rivergauge", river.RiverGauge, "link", {"mrf": 0.5, "mrf_cost": -3.0, "cost": 20.0}, {"mrf": 1.0}, {"mrf": "p_a"}, {"mrf_cost": 21.0}, {"mrf_cost": "p_swing"}, {"cost": 0.25}, {"cost": "p_swing"})
nod("catchment", river.Catchment, "input", {"flow": 2.0}, {"flow": "p_a"}, {"flow": 1.0}, quiet=[{"cost": 3.0}])
nod("discharge", river.Discharge, "input", {"flow": 2.0}, {"flow": "p_a"}, quiet=[{"cost": "p_swing"}])
_ST = {"max_volume": 30.0, "initial_volume": 10.0, "cost": -6.5}
_STV = ({"max_volume": 8.0, "initial_volume": 8.0}, {"max_volume": "p_big", "initial_volume_pc": 0.5}, {"initial_volume": 5.0}, {"initial_volume": DEL, "initial_volume_pc": 0.6}, {"cost": -2.0}, {"cost": "p_swing"})
nod("storage", pn.Storage, "storage", _ST, *_STV, quiet=[{"level": "p_lev"}, {"area": 3.5, "level": 2.5}, {"area": "p_a"}])
_LOW = dict(_ST, cost=-2.0, initial_volume=8.0)
nod("storage", pn.Storage, "storage", _LOW, {"min_volume": 4.0}, {"min_volume": "p_a"})
nod("reservoir", river.Reservoir, "storage", _LOW, {"min_volume": 4.0}, {"min_volume": "p_a"})
nod("reservoir", river.Reservoir, "storage", _ST, *_STV, {"above_curve_cost": 9.0, "control_curve": "p_half"}, {"above_curve_cost": 9.0, "control_curve": 0.3}, {"above_curve_cost": 9.0},
    quiet=[{"level": "p_lev"}, {"area": 3.5, "level": 2.5}])
nod("storage", pn.Storage, "storage", dict(_ST, inputs=2, outputs=2), edges=[["n_y", "X", None, 1], ["X", "n_x", 1, None], ["s_res", "X", None, 0], ["X", "n_z", 0, None]])
nod("storage", pn.Storage, "storage", dict(_ST, inputs=2), edges=[["n_y", "X"], ["X", "n_x", 1, None], ["X", "n_z", 0, None]])
_VS = {"nodes": ["n_dem", "n_two"], "max_volume": 200.0, "initial_volume": 150.0}
_VV = ({"nodes": ["n_dem"]}, {"factors": [1.0, 3.0]}, {"max_volume": "p_big", "initial_volume": 100.0, "initial_volume_pc": 0.5}, {"min_volume": 80.0}, {"min_volume": "p_big2"}, {"initial_volume": 100.0}, {"initial_volume": DEL, "initial_volume_pc": 0.25})
nod("virtualstorage", pn.VirtualStorage, "none", _VS, *_VV, quiet=[{"max_volume": 240.0}, {"cost": 0.0}])
_RT = ({"reset_day": 15}, {"reset_month": 5}, {"reset_to_initial_volume": True})
nod("annualvirtualstorage", pn.AnnualVirtualStorage, "none", _VS, *_VV, {"max_volume": 240.0}, *_RT)
nod("seasonalvirtualstorage", pn.SeasonalVirtualStorage, "none", dict(_VS, reset_month=3, reset_day=10, end_month=9, end_day=20), *_VV, {"max_volume": 240.0}, {"reset_day": 25}, {"reset_month": 5}, {"reset_to_initial_volume": True},
    {"end_month": 6}, {"end_day": 2})
nod("monthlyvirtualstorage", pn.MonthlyVirtualStorage, "none", dict(_VS, months=3), *_VV, {"max_volume": 180.0}, {"months": 2}, {"initial_months": 1}, {"reset_to_initial_volume": True})
nod("rollingvirtualstorage", pn.RollingVirtualStorage, "none", {"nodes": ["n_dem", "n_two"], "max_volume": 100.0, "initial_volume": 90.0, "timesteps": 5}, {"nodes": ["n_dem"]}, {"factors": [1.0, 3.0]},
    {"timesteps": 4}, {"timesteps": DEL, "days": 66}, {"min_volume": 20.0}, {"min_volume": "p_big2"}, {"initial_volume": 40.0}, {"initial_volume": DEL, "initial_volume_pc": 0.25}, {"max_volume": 120.0})
_AG = ("max_flow", "min_flow", "factors")
nod("aggregatednode", pn.AggregatedNode, "none", {"nodes": ["n_dem", "n_two"]}, {"max_flow": 2.0}, {"max_flow": "p_a"}, {"min_flow": 1.0, "max_flow": 2.0}, {"nodes": ["n_dem", "n_spill"]}, {"factors": [2.0, 1.0]},
    {"factors": ["p_half", 0.25]}, {"max_flow": 2.0, "flow_weights": [1.0, 0.5]}, later=_AG)
nod("aggregatednode", pn.AggregatedNode, "none", {"nodes": ["n_spill", "n_two"], "min_flow": 1.25}, {"min_flow": 1.5}, {"min_flow": "p_a"}, {"flow_weights": [2.0, 1.0]}, later=_AG)
nod("aggregatedstorage", pn.AggregatedStorage, "none", {"storage_nodes": ["s_res", "s_two"]}, {"storage_nodes": ["s_two"]})
nod("keatingaquifer", groundwater.KeatingAquifer, "storage", {"num_streams": 1, "num_additional_inputs": 1, "stream_flow_levels": [[4.0, 5.0]], "transmissivity": [0.0625, 0.25], "coefficient": 0.125,
                                                            "levels": [0.0, 10.0, 20.0], "volumes": [0.0, 20.0, 60.0], "initial_volume": 15.0, "cost": -7.0},
    {"stream_flow_levels": [[3.0, 5.0]]}, {"transmissivity": [0.03125, 0.25]}, {"coefficient": 0.25}, {"levels": [0.0, 12.0, 20.0]}, {"volumes": [0.0, 25.0, 60.0]},
    {"volumes": DEL, "area": 4000.0, "storativity": [0.5, 0.75]}, {"initial_volume": 5.0}, edges=[["n_y", "X"], ["X", "n_spill", 0, None], ["X", "n_z", 1, None]])

NCOMMON = [{"comment": "some words"}, {"tags": {"a": "b", "n": 3}}, {"position": {"schematic": [3, 4]}}, {"color": "red"}, {"visible": False}]


def node_doc():
    d = env_doc()
    d["nodes"] += [{"type": "output", "name": "n_x", "max_flow": 3.0, "cost": -5.0}, {"type": "output", "name": "n_z", "max_flow": 1.75, "cost": -4.25}, {"type": "input", "name": "n_y", "max_flow": "p_b", "cost": 1.0}]
    d["edges"] += [["n_y", "n_x"], ["n_y", "n_z"]]
    d["parameters"].update(p_swing={"type": "aggregated", "agg_func": "sum", "parameters": [{"type": "aggregated", "agg_func": "product", "parameters": [-40.0, "p_b"]}, {"type": "constant", "value": 20.0}]},
                           p_big={"type": "aggregated", "agg_func": "product", "parameters": ["p_b", {"type": "constant", "value": 40.0}]},
                           p_big2={"type": "aggregated", "agg_func": "product", "parameters": ["p_b", {"type": "constant", "value": 30.0}]})
    return d


def nattrs(m, n):
    out = {"class": type(n).__name__, "comment": n.comment, "tags": repr(getattr(n, "tags", None)), "position": repr(n.position), "color": n.color, "visible": n.visible,
           "nodes": repr(sorted(repr(x) for x in m.graph.nodes)), "edges": repr(sorted((a.name, a.fully_qualified_name, b.fully_qualified_name) for a, b in m.graph.edges))}
    return out


def inlined(x, d):
    if isinstance(x, str) and x.startswith("p_"):
        return json.loads(json.dumps(d["parameters"][x]))
    if isinstance(x, list):
        return [inlined(y, d) for y in x]
    return x


class Look2(Eye):
    """also levels and areas of storages"""

    def after(self):
        super().after()
        row = self.rows[-1]
        for n in sorted(self.model.nodes, key=lambda n: n.name):
            if isinstance(n, pn.Storage) and n.level is not None:
                row.append(np.array([n.get_level(si) for si in self.model.scenarios.combinations]))
            if isinstance(n, pn.Storage) and n.area is not None:
                row.append(np.array([n.get_area(si) for si in self.model.scenarios.combinations]))


def node_seen(spec, v, way, extra=None):
    d = node_doc()
    extra = dict(extra or {})
    doc = spec.doc(v)
    doc.update(extra)
    edges = [list(e) for e in spec.edges]
    if way == "python":
        m = Model.load(d)
        kw = {k: resolve(m, copy.deepcopy(x)) for k, x in doc.items() if k not in spec.later}
        n = spec.cls(m, name="X", **kw)
        for k in spec.later:
            if k in doc:
                setattr(n, k, resolve(m, doc[k]))
        for a, b, *slots in edges:
            s, t = slots or (None, None)
            m.nodes[a].connect(m.nodes[b], from_slot=s, to_slot=t)
    else:
        X = dict(json.loads(json.dumps(doc)), type=spec.key, name="X")
        if way == "inline":
            X = {k: inlined(x, d) if k not in ("nodes", "storage_nodes") else x for k, x in X.items()}
        if way == "first" and "nodes" not in X and "storage_nodes" not in X:
            d["nodes"].insert(0, dict(X, type=spec.cls.__name__))
            d["edges"] = edges + d["edges"]
        else:
            d["nodes"].append(X)
            d["edges"] += edges
        m = Model.loads(json.dumps(d))
        n = m.nodes["X"]
    eye = Look2(m)
    m.run()
    return {"attrs": nattrs(m, n), "rows": eye.rows}


def gen_nodes(tier):
    for i, s in enumerate(N):
        for j in range(len(s.all())):
            yield [i, j]


def run_nodes(cfg, tr):
    i, j = cfg
    s = N[i]
    v, loud = s.all()[j]
    tr.step(4 * STEPS)
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = node_seen(s, v, "python")
        ways = ["last", "first"] + (["inline"] if "p_" in json.dumps({k: x for k, x in s.doc(v).items()}) else [])
        for way in ways:
            got = node_seen(s, v, way)
            w = differ(got, ref)
            require(w is None, "%s %s loaded (%s) differs from the one constructed at %s" % (s.key, s.doc(v), way, w), "nodes " + s.key)
            tr.state((s.key, i, j, way))
        if loud:
            base = node_seen(s, {}, "python")
            require(differ(base["rows"], ref["rows"]) is not None, "setting %s of %s has no effect" % (v, s.key), "nodes " + s.key)
    tr.outcome = (s.key, j)


def gen_ncommon(tier):
    seen = set()
    for i, s in enumerate(N):
        if s.key not in seen:
            seen.add(s.key)
            yield [i]


def run_ncommon(cfg, tr):
    s = N[cfg[0]]
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        base = node_seen(s, {}, "python")
        for ex in NCOMMON:
            ref = node_seen(s, {}, "python", ex)
            got = node_seen(s, {}, "last", ex)
            w = differ(got["attrs"], ref["attrs"]) or differ(got, ref)
            require(w is None, "%s with %s loaded differs from the one constructed at %s" % (s.key, ex, w), "ncommon " + s.key)
            for k, x in ex.items():
                require(got["attrs"][k] == (repr(x) if k in ("tags", "position") else x), "%s of a %s is %r, not %r" % (k, s.key, got["attrs"][k], x), "ncommon %s %s" % (s.key, k))
            require(differ(base["rows"], got["rows"]) is None, "%s of %s changes the simulation" % (ex, s.key), "ncommon " + s.key)
            tr.state((s.key, repr(ex)))
        try:
            node_seen(s, {}, "last", {"no_such_setting": 1})
        except Violation:
            raise
        except Exception as e:
            tr.count("refused " + type(e).__name__)
        else:
            require(False, "%s with an unknown setting is loaded" % s.key, "unknown " + s.key)


GROUPS.update({"nodes": (gen_nodes, run_nodes), "ncommon": (gen_ncommon, run_ncommon)})


# ---------------------------------------------------------------------------------- order of entries
class EyeAll(Recorder):
    """everything with a name, after every step"""

    def setup(self):
        self.rows = []

    def reset(self):
        self.rows = []

    def after(self):
        m = self.model
        row = {}
        for p in m.parameters:
            if p.name and "<" not in p.name and not p.name.startswith("_"):
                try:
                    row["p " + p.name] = np.array(p.get_all_values())
                    if isinstance(p, IndexParameter):
                        row["i " + p.name] = np.array(p.get_all_indices(), dtype=float)
                except NotImplementedError:
                    pass
        for n in m.nodes:
            for a in ("flow", "volume"):
                if hasattr(n, a):
                    row["n %s %s" % (n.name, a)] = np.array(getattr(n, a), dtype=float)
        self.rows.append(row)


def whole(d, **kw):
    """load a document and observe all of it"""
    m = Model.loads(json.dumps(d), **kw) if isinstance(d, dict) else Model.load(d, **kw)
    return observe(m)


def observe(m):
    eye = EyeAll(m, name="_eye")
    m.run()
    out = {"rows": eye.rows}
    for r in m.recorders:
        if r is not eye:
            out["r " + r.name] = recorded(r)
    return out


def zoo_doc(name):
    d = json.loads(json.dumps(zoo.ZOO[name]()))
    for r in d["recorders"].values():
        for k in [k for k, v in r.items() if v is None]:
            del r[k]
    return d


def reorder(x, how):
    x = list(x)
    if how[0] == "rev":
        return x[::-1]
    if how[0] == "rot":
        k = how[1] % max(1, len(x))
        return x[k:] + x[:k]
    if how[0] == "swap":
        _, i, j = how
        x[i], x[j] = x[j], x[i]
        return x
    if how[0] == "perm":
        return [x[i] for i in how[1]]


def section(d, name, how):
    s = d[name]
    d[name] = dict(reorder(s.items(), how)) if isinstance(s, dict) else reorder(s, how)


def keys_reversed(x):
    if isinstance(x, dict):
        return {k: v if k == "data" else keys_reversed(v) for k, v in reversed(list(x.items()))}
    if isinstance(x, list):
        return [keys_reversed(v) for v in x]
    return x


SECTIONS = ("nodes", "edges", "parameters", "recorders")
_ZREF = {}


def zref(name):
    if name not in _ZREF:
        _ZREF[name] = whole(zoo_doc(name))
    return _ZREF[name]


def gen_order(tier):
    for name in zoo.ZOO:
        d = zoo_doc(name)
        yield [name, "keys", None]
        for s in SECTIONS:
            n = len(d[s])
            if n < 2:
                continue
            yield [name, s, ["rev"]]
            ks = range(1, n) if tier == "thorough" else sorted(set((1, n // 3, n // 2, n - 1)) - {0})
            for k in ks:
                yield [name, s, ["rot", k]]
            if tier == "thorough":
                for i, j in itertools.combinations(range(n), 2):
                    yield [name, s, ["swap", i, j]]
    for perm in itertools.permutations(range(len(small()["parameters"]))):
        yield ["small", "parameters", ["perm", list(perm)]]


def run_order(cfg, tr):
    name, s, how = cfg
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        if name == "small":
            ref = _ZREF.setdefault("small", whole(small()))
            base = small()
            section(base, s, how)
            tops = list(itertools.permutations(range(len(base["nodes"])))) if how[1][0] == 0 else [tuple(range(len(base["nodes"])))]
            for nodes in tops:
                for rs in itertools.permutations(range(len(base["recorders"]))):
                    d = json.loads(json.dumps(base))
                    section(d, "nodes", ["perm", nodes])
                    section(d, "recorders", ["perm", rs])
                    w = differ(whole(d), ref)
                    require(w is None, "order %s of the parameters, %s of the nodes and %s of the recorders changes %s" % (list(d["parameters"]), nodes, list(d["recorders"]), w), "order small")
                    tr.step(5)
                    tr.state((how[1], nodes, rs))
        else:
            d = zoo_doc(name)
            if s == "keys":
                d = keys_reversed(d)
            else:
                section(d, s, how)
            w = differ(whole(d), zref(name))
            require(w is None, "%s: order of %s changed by %s changes %s" % (name, s, how, w), "order %s" % s)
            tr.step(16)
            tr.state((name, s, repr(how)))
    tr.outcome = (name, s)


def small():
    """a small document with references between all kinds of components"""
    return {"metadata": {"title": "small", "minimum_version": "0.1"}, "timestepper": {"start": "2015-01-01", "end": "2015-01-05", "timestep": 1},
            "scenarios": [{"name": "sc", "size": 2}],
            "nodes": [{"name": "src", "type": "input", "max_flow": "pa"}, {"name": "sto", "type": "storage", "max_volume": 20.0, "initial_volume": 9.0, "cost": -2.0},
                      {"name": "out", "type": "output", "max_flow": "pd", "cost": -5.0}],
            "edges": [["src", "sto"], ["sto", "out"]],
            "parameters": {"pa": {"type": "aggregated", "agg_func": "sum", "parameters": ["pb", "pc"]},
                           "pb": {"type": "controlcurve", "storage_node": "sto", "control_curves": ["pc"], "values": [1.0, 3.0]},
                           "pc": {"type": "constantscenario", "scenario": "sc", "values": [0.25, 0.75]},
                           "pd": {"type": "indexedarray", "index_parameter": "pe", "params": [4.0, "pa"]},
                           "pe": {"type": "recorderthreshold", "recorder": "rn", "threshold": 3.5, "predicate": "GT"}},
            "recorders": {"rn": {"type": "numpyarraynode", "node": "out"}, "rp": {"type": "numpyarrayparameter", "parameter": "pa"},
                          "ra": {"type": "aggregated", "recorders": ["rn", "rp"], "recorder_agg_func": "sum"}}}


# ---------------------------------------------------------------------------------- ways of referring
def styled():
    """a document in which seven components are referred to once each, and the places of these references"""
    d = small()
    d["timestepper"]["end"] = "2015-01-04"
    d["parameters"] = {
        "p0": {"type": "aggregated", "agg_func": "sum", "parameters": ["p1", "p2"]},
        "p1": {"type": "controlcurve", "storage_node": "sto", "control_curves": ["p3"], "values": [1.0, 3.0]},
        "p2": {"type": "division", "numerator": "p4", "denominator": 2.0},
        "p3": {"type": "constant", "value": 0.5},
        "p4": {"type": "constantscenario", "scenario": "sc", "values": [0.25, 0.75]},
        "p5": {"type": "indexedarray", "index_parameter": "p6", "params": [4.0, 1.0]},
        "p6": {"type": "storagethreshold", "storage_node": "sto", "threshold": 8.0, "predicate": "LT"},
        "p7": {"type": "monthlyprofile", "values": [2.0 + i for i in range(12)]}}
    d["parameters"]["p2"]["denominator"] = "p7"
    d["nodes"][0]["max_flow"] = "p0"
    d["nodes"][2]["max_flow"] = "p5"
    d["recorders"] = {"rn": {"type": "numpyarraynode", "node": "out"}}
    return d


def place(d, how):
    """replace the references of components whose digit is 1 (anonymous) or 2 (named) with their definitions"""
    defs = d["parameters"]

    def sub(x):
        if isinstance(x, str) and x in defs:
            k = how[int(x[1:])]
            if k == 0:
                return x
            return walk(dict(defs[x], **({"name": x} if k == 2 else {})))
        return walk(x)

    def walk(x):
        if isinstance(x, dict):
            return {k: (v if k in ("name", "type", "storage_node", "scenario") else sub(v)) for k, v in x.items()}
        if isinstance(x, list):
            return [sub(v) for v in x]
        return x

    out = dict(d)
    out["nodes"] = [walk(n) for n in d["nodes"]]
    out["parameters"] = {k: walk(v) for k, v in defs.items() if how[int(k[1:])] == 0}
    return out


def gen_style(tier):
    for a in itertools.product(range(3), repeat=3):
        yield list(a)


def run_style(cfg, tr):
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = _ZREF.setdefault("styled", whole(styled()))
        for b in itertools.product(range(3), repeat=5):
            how = tuple(cfg) + b
            d = place(styled(), how)
            m = Model.loads(json.dumps(d))
            got = observe(m)
            for k in range(8):
                if how[k] == 1:
                    require("p%d" % k not in [p.name for p in m.parameters], "anonymous parameter has a name", "style name")
                else:
                    require("p%d" % k in [p.name for p in m.parameters], "parameter p%d is not known by its name with styles %s" % (k, how), "style name")
            want = {"rows": [{k: v for k, v in row.items() if k[0] == "n" or how[int(k[3:])] != 1} for row in ref["rows"]], "r rn": ref["r rn"]}
            w = differ(got, want)
            require(w is None, "referring to components as %s changes %s" % (how, w), "style")
            tr.step(4)
            tr.state(how)
    tr.outcome = tuple(cfg)


# ---------------------------------------------------------------------------------- scenarios
def slices(n, wide):
    """two and three items, as the slice of the same items"""
    ends = [None] + list(range(-n, n + 2))
    for a in (ends if wide else range(n)):
        for b in (ends if wide else range(1, n + 1)):
            yield [a, b]
            for s in ((1, 2, 3, -1, -2) if wide else (1, 2)):
                yield [a, b, s]


def gen_scen(tier):
    for n in (1, 2, 3, 4) if tier == "quick" else (1, 2, 3, 4, 5):
        for with_names in (False, True):
            for second in ("none", "whole", "sliced", "combined"):
                # slices of every form, or of forward ones
                yield {"n": n, "names": with_names, "second": second, "wide": tier != "quick" or second == "none" and (n < 4) == with_names}


def run_scen(cfg, tr):
    """what a document says of the scenarios, against the plain meaning of it"""
    n = cfg["n"]
    m2 = 3
    names = ["e%d" % i for i in range(n)]
    todo = [None] + list(slices(n, cfg["wide"]))
    for sl in todo:
        d = small()
        d["scenarios"] = [{"name": "sa", "size": n}]
        first = list(range(n))
        if cfg["names"]:
            d["scenarios"][0]["ensemble_names"] = names
        if sl is not None:
            d["scenarios"][0]["slice"] = sl
            first = first[slice(*sl)]
        second = [0]
        if cfg["second"] != "none":
            d["scenarios"].append({"name": "sb", "size": m2})
            second = list(range(m2))
            if cfg["second"] == "sliced":
                d["scenarios"][1]["slice"] = [0, 3, 2]
                second = [0, 2]
        want = [(i, j)[:len(d["scenarios"])] for i in first for j in second]
        if cfg["second"] == "combined":
            # slices do not matter for the combinations that are asked for
            want = [((3 * i + 1) % n, (2 * i + 1) % m2) for i in range(4)]
            d["scenario_combinations"] = [list(w) for w in want]
        d["nodes"] = [{"type": "input", "name": "i", "max_flow": "p"}, {"type": "output", "name": "o", "cost": -1.0}]
        d["edges"] = [["i", "o"]]
        d["recorders"] = {"r": {"type": "numpyarraynode", "node": "o"}}
        d["parameters"] = {"p": {"type": "aggregated", "agg_func": "sum", "parameters": ["pa", "pb"]}, "pa": {"type": "constantscenario", "scenario": "sa", "values": [float(i + 1) for i in range(n)]},
                           "pb": {"type": "constantscenario", "scenario": "sb", "values": [10.0 * (i + 1) for i in range(m2)]} if cfg["second"] != "none" else {"type": "constant", "value": 0.0}}
        what = "scenarios %s%s" % (json.dumps(d["scenarios"]), " with combinations %s" % d.get("scenario_combinations") if "scenario_combinations" in d else "")
        tr.state(cfg["n"], cfg["names"], cfg["second"], sl)
        if not want:
            try:
                m = Model.loads(json.dumps(d))
                m.run()
            except ValueError:
                tr.count("nothing selected")
            else:
                require(False, what + " select nothing and run", "scenarios empty")
            continue
        m = Model.loads(json.dumps(d))
        m.run()
        got = [tuple(int(x) for x in c.indices) for c in m.scenarios.combinations]
        require(got == want, "%s run %s, not %s" % (what, got, want), "scenarios")
        f = [w[0] + 1.0 + (10.0 * (w[1] + 1) if len(w) > 1 else 0.0) for w in want]
        data = np.array(m.recorders["r"].data)
        require(same(data, [f] * len(data)), "%s: flows %s, not %s" % (what, data[0], f), "scenarios")
        cols = m.recorders["r"].to_dataframe().columns
        lab = [tuple((names[w[0]] if cfg["names"] else w[0],) + w[1:]) for w in want]
        got = [tuple(c) if isinstance(c, tuple) else (c,) for c in cols]
        require(got == lab and list(cols.names) == [s["name"] for s in d["scenarios"]], "%s: columns %s %s, not %s" % (what, cols.names, got, lab), "scenarios columns")
        tr.run()
        tr.step(len(data))
    tr.outcome = (sorted(cfg.items()),)


GROUPS.update({"scen": (gen_scen, run_scen), "order": (gen_order, run_order), "style": (gen_style, run_style)})


# ---------------------------------------------------------------------------------- where data is held
LAB = ["r%d" % i for i in range(9)]
MONTH = ["m%d" % i for i in range(12)]


def frame(rows, cols, k=3):
    return pd.DataFrame([[round(((i + 2) * (j + 3) * k % 17) / 4.0 + 0.25, 4) for j in range(len(cols))] for i in range(len(rows))], index=pd.Index(rows, name="lab"), columns=cols)


def data_cases():
    """(name, frame, what is picked, inline definition)"""
    f = frame(LAB, ["c%d" % j for j in range(5)])
    yield "constant", f, {"index": "r2", "column": "c3"}, {"type": "constant", "value": f.loc["r2", "c3"]}
    yield "constant", f, {"index": "r8", "column": "c0"}, {"type": "constant", "value": f.loc["r8", "c0"]}
    fm = frame(MONTH, ["c0", "c1"], 5)
    yield "monthlyprofile", fm, {"column": "c1"}, {"type": "monthlyprofile", "values": list(fm["c1"])}
    fm2 = frame(["r0", "r1", "r2"], MONTH, 7)
    yield "monthlyprofile", fm2, {"index": "r1"}, {"type": "monthlyprofile", "values": list(fm2.loc["r1"])}
    yield "monthlyprofile", frame(MONTH, ["c0"], 5), {}, {"type": "monthlyprofile", "values": list(frame(MONTH, ["c0"], 5)["c0"])}
    yield "constantscenario", frame(["r0", "r1"], ["a", "b", "c"], 4), {"index": "r1"}, {"type": "constantscenario", "scenario": "sc", "values": list(frame(["r0", "r1"], ["a", "b", "c"], 4).loc["r1"])}
    f6 = frame(LAB[:6], ["c%d" % j for j in range(5)], 5)
    yield "arrayindexed", f6, {"column": "c2"}, {"type": "arrayindexed", "values": list(f6["c2"])}
    yield "arrayindexedscenario", f6, {"columns": ["c4", "c1", "c2"]}, {"type": "arrayindexedscenario", "scenario": "sc", "values": f6[["c4", "c1", "c2"]].values.tolist()}
    f9 = frame(LAB, ["x", "y", "z"], 6)
    yield "arrayindexedscenario", f9, {"indexes": ["r1", "r8", "r0", "r4", "r3", "r6"]}, {"type": "arrayindexedscenario", "scenario": "sc", "values": f9.loc[["r1", "r8", "r0", "r4", "r3", "r6"]].values.tolist()}
    f99 = frame(LAB, ["c%d" % j for j in range(5)], 6)
    yield "arrayindexedscenario", f99, {"columns": ["c3", "c0", "c1"], "indexes": LAB[2:8]}, {"type": "arrayindexedscenario", "scenario": "sc", "values": f99.loc[LAB[2:8], ["c3", "c0", "c1"]].values.tolist()}
    mi = pd.MultiIndex.from_product([["u", "v"], ["r0", "r1"]], names=["one", "two"])
    fmi = pd.DataFrame(frame(LAB[:4], ["c0", "c1"], 3).values, index=mi, columns=["c0", "c1"])
    yield "constant", fmi, {"index": ["v", "r0"], "column": "c1"}, {"type": "constant", "value": fmi.loc[("v", "r0"), "c1"]}
    fd = pd.DataFrame(frame(LAB, ["c0", "c1"], 3).values, index=pd.date_range("2014-12-30", periods=9, name="lab"), columns=["c0", "c1"])
    yield "dataframe", fd, {"column": "c1", "parse_dates": True}, {"type": "arrayindexed", "values": list(fd["c1"][2:8])}
    fs = pd.DataFrame(frame(LAB, ["a", "b", "c"], 3).values, index=pd.date_range("2014-12-30", periods=9, name="lab"), columns=["a", "b", "c"])
    yield "dataframe", fs, {"scenario": "sc", "parse_dates": True}, {"type": "arrayindexedscenario", "scenario": "sc", "values": fs[2:8].values.tolist()}


DATA = list(data_cases())
SOURCES = ("csv", "csv.gz", "xlsx", "h5", "dict")
HASHES = ((), ("md5",), ("MD5",), ("sha256",), ("md5", "sha1"))


def data_doc(x, tables=None):
    d = small()
    d["timestepper"]["end"] = "2015-01-06"
    d["scenarios"][0]["size"] = 3
    d["parameters"]["pc"]["values"] = [0.25, 0.75, 0.5]
    d["parameters"]["X"] = x
    d["nodes"].append({"name": "extra", "type": "input", "max_flow": "X", "cost": 0.5})
    d["edges"].append(["extra", "out"])
    if tables:
        d["tables"] = tables
    return d


def put(f, source, folder, name="data"):
    """write a frame; returns the settings that read it"""
    if source == "dict":
        if isinstance(f.index, pd.MultiIndex):
            return None
        lab = [str(i.date()) if isinstance(i, pd.Timestamp) else i for i in f.index]
        return {"data": {c: dict(zip(lab, map(float, f[c]))) for c in f.columns}}
    path = os.path.join(folder, name + "." + source)
    out = {"url": name + "." + source}
    if source == "h5":
        f.to_hdf(path, key="main")
        return dict(out, key="main")
    if source == "xlsx":
        f.to_excel(path, merge_cells=False)
        return dict(out, index_col=[0, 1] if isinstance(f.index, pd.MultiIndex) else 0)
    f.to_csv(path)
    return dict(out, index_col=list(f.index.names) if isinstance(f.index, pd.MultiIndex) else "lab")


def digest(path, alg):
    h = hashlib.new(alg.lower())
    h.update(open(path, "rb").read())
    return h.hexdigest().upper() if alg.isupper() else h.hexdigest()


def gen_data(tier):
    for i in range(len(DATA)):
        for s in SOURCES:
            yield [i, s]


def run_data(cfg, tr):
    i, source = cfg
    kind, f, pick, inline = DATA[i]
    folder = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            src = put(f, source, folder)
            if src is None:
                tr.outcome = "none"
                return
            pick = dict(pick)
            extra = {k: pick.pop(k) for k in ("scenario",) if k in pick}
            if "scenario" in inline:
                extra["scenario"] = inline["scenario"]
            if source == "h5":
                pick.pop("parse_dates", None)
            reader = {k: pick.pop(k) for k in ("parse_dates",) if k in pick}
            ref = whole(data_doc(inline))
            for via in ("direct", "table", "table pick"):
                for hs in (HASHES if source != "dict" else ((),)):
                    for rel in ("relative", "absolute") if source != "dict" else ("relative",):
                        s = dict(src, **reader)
                        if rel == "absolute":
                            s["url"] = os.path.join(folder, s["url"])
                        if hs:
                            s["checksum"] = {h.lower(): digest(os.path.join(folder, src["url"]), h) for h in hs}
                        if via == "direct":
                            if source == "dict":
                                continue        # only tables are embedded
                            d = data_doc(dict(extra, type=kind, **s, **pick))
                        elif via == "table":
                            d = data_doc(dict(extra, type=kind, table="tab", **pick), {"tab": s})
                        else:
                            d = data_doc(dict(extra, type=kind, table="tab"), {"tab": dict(s, **pick)})
                            if "index" in pick and "column" in pick:
                                continue        # a table is not a number
                        p = os.path.join(folder, "model.json")
                        open(p, "w").write(json.dumps(d))
                        for how in ("file", "string") if not hs else ("file",):
                            m = Model.load(p) if how == "file" else Model.loads(json.dumps(d), path=p)
                            w = differ(observe(m), ref)
                            require(w is None, "%s from %s (%s, %s, %s) differs from the same values given inline at %s" % (kind, source, via, rel, how, w), "data %s" % kind)
                            tr.step(6)
                            tr.state((i, source, via, hs, rel, how))
                    # a wrong hash
                    for k in range(len(hs)):
                        s = dict(src, **reader)
                        s["checksum"] = {h.lower(): digest(os.path.join(folder, src["url"]), h) for h in hs}
                        h = hs[k].lower()
                        g = s["checksum"][h]
                        s["checksum"][h] = ("0" if g[0] != "0" else "1") + g[1:]
                        d = data_doc(dict(extra, type=kind, **s, **pick)) if via == "direct" else data_doc(dict(extra, type=kind, table="tab", **pick), {"tab": s})
                        refused(d, "a wrong %s of the data" % h, "hash", tr, path=os.path.join(folder, "model.json"))
            # wrong places in the data
            for k, bad in (("index", "nolabel"), ("column", "nocolumn"), ("columns", ["nocolumn"]), ("indexes", ["nolabel"]), ("table", "notable"), ("url", "nofile.csv"), ("no_key", 1)):
                s = dict(src, **reader)
                ds = []
                if k in pick:
                    q = dict(pick)
                    q[k] = [bad] + q[k][1:] if k == "index" and isinstance(q[k], list) else ([bad[0]] + q[k][1:] if isinstance(bad, list) else bad)
                    ds = [data_doc(dict(extra, type=kind, **s, **q)), data_doc(dict(extra, type=kind, table="tab", **q), {"tab": s})]
                elif k == "table":
                    ds = [data_doc(dict(extra, type=kind, table=bad, **pick), {"tab": s})]
                elif k == "url" and source != "dict":
                    ds = [data_doc(dict(extra, type=kind, **dict(s, url=bad), **pick)), data_doc(dict(extra, type=kind, table="tab", **pick), {"tab": dict(s, url=bad)}),
                          data_doc(dict(extra, type=kind, **dict(s, url="data.unknown"), **pick))]
                elif k == "no_key" and source != "h5":      # pandas takes any setting for these
                    ds = [data_doc(dict(extra, type=kind, **dict(s, no_key=1), **pick)), data_doc(dict(extra, type=kind, table="tab", **pick), {"tab": dict(s, no_key=1)}),
                          data_doc(dict(extra, type=kind, table="tab", no_key=1, **pick), {"tab": s})]
                for d in ds:
                    refused(d, "%s %r of data" % (k, bad), "place " + k, tr, path=os.path.join(folder, "model.json"))
            if source == "dict":
                for bad in ({"checksum": {"md5": "0"}}, {"filetype": "csv"}):
                    refused(data_doc(dict(extra, type=kind, **src, **reader, **pick, **bad)), "%s of embedded data" % bad, "embedded", tr)
    finally:
        shutil.rmtree(folder)
    tr.outcome = (kind, source)


def refused(d, what, key, tr, **kw):
    try:
        m = Model.loads(json.dumps(d), **kw)
        m.run()
    except Exception as e:
        tr.count("refused %s" % type(e).__name__)
        tr.state((key, what))
    else:
        require(False, "%s is not reported" % what, "refuse " + key)


# ---------------------------------------------------------------------------------- hashes of several files
FILES = ("a/data.csv", "b/data.csv", "data.csv")
USES = [(f, g, h) for f in range(3) for g in range(4) for h in ("md5", "sha1")]     # file, whose hash (3: none), kind


def gen_hashes(tier):
    for a in range(len(USES)):
        for via in ("direct", "table"):
            yield [a, via]


def run_hashes(cfg, tr):
    """files of one name in several folders: refused just when one of the hashes is not that of its own file"""
    a, via = cfg
    folder = tempfile.mkdtemp(dir=os.getcwd())
    try:
        with warnings.catch_warnings():
            warnings.simplefilter("ignore")
            for i, n in enumerate(FILES):
                os.makedirs(os.path.dirname(os.path.join(folder, n)), exist_ok=True)
                frame(["r0", "r1"], ["c0"], 3 + i).to_csv(os.path.join(folder, n))
            want = [float(frame(["r0", "r1"], ["c0"], 3 + i).loc["r1", "c0"]) for i in range(3)]
            for b in range(len(USES)):
                for rel in (0, 1):
                    uses = [USES[a], USES[b]]
                    tabs, ps, good = {}, {}, True
                    for k, (f, g, h) in enumerate(uses):
                        s = {"url": os.path.join(folder, FILES[f]) if rel and k else FILES[f], "index_col": "lab"}
                        if g < 3:
                            s["checksum"] = {h: digest(os.path.join(folder, FILES[g]), h)}
                            good = good and g == f
                        pick = {"type": "constant", "index": "r1", "column": "c0"}
                        if via == "table":
                            tabs["tab%d" % k] = s
                            ps["h%d" % k] = dict(pick, table="tab%d" % k)
                        else:
                            ps["h%d" % k] = dict(pick, **s)
                    d = small()
                    d["tables"] = tabs
                    d["parameters"].update(ps)
                    path = os.path.join(folder, "model.json")
                    open(path, "w").write(json.dumps(d))
                    if not good:
                        refused(d, "a hash of another file (%s)" % (uses,), "hash", tr, path=path)
                    else:
                        m = Model.loads(json.dumps(d), path=path)
                        m.setup()
                        got = [float(m.parameters["h%d" % k].get_constant_value()) for k in (0, 1)]
                        require(got == [want[u[0]] for u in uses], "files %s give %s, not %s" % (uses, got, want), "hash files")
                    tr.step()
                    tr.state((a, b, via, rel))
    finally:
        shutil.rmtree(folder)
    tr.outcome = (via, USES[a][0])


# ---------------------------------------------------------------------------------- included files
INC = ("nodes", "edges", "parameters", "recorders", "scenarios", "tables")


def inc_doc():
    d = small()
    d["tables"] = {"tab": {"data": {"c0": {"r0": 4.0, "r1": 3.0}}}}
    d["parameters"]["pd"]["params"][0] = {"type": "constant", "table": "tab", "column": "c0", "index": "r1"}
    return d


def gen_include(tier):
    for a in itertools.product(range(4), repeat=len(INC)):
        if a[0] == 0 or tier == "thorough":
            yield list(a)
    if tier != "thorough":
        for a in itertools.product((1, 3), repeat=len(INC)):
            yield list(a)


def run_include(cfg, tr):
    """sections in the main file (0), in the first (1) or second (2) included file, or in all of them (3)"""
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        ref = _ZREF.setdefault("inc", whole(inc_doc()))
        d = inc_doc()
        parts = [{k: v for k, v in d.items() if k not in INC}, {}, {}]
        for s, where in zip(INC, cfg):
            x = d[s]
            if where < 3:
                parts[where][s] = x
            else:
                items = list(x.items()) if isinstance(x, dict) else x
                for k in range(3):
                    # an even split, the last ones in the main file
                    piece = items[2 - k::3]
                    if piece or k == 0:
                        parts[k][s] = dict(piece) if isinstance(x, dict) else piece
        folder = tempfile.mkdtemp(dir=os.getcwd())
        try:
            os.mkdir(os.path.join(folder, "sub"))
            main = parts[0]
            main["includes"] = ["one.json", "sub/two.json"]
            p = os.path.join(folder, "model.json")
            for name, x in (("model.json", main), ("one.json", parts[1]), ("sub/two.json", parts[2])):
                open(os.path.join(folder, name), "w").write(json.dumps(x))
            ways = ["file", "string", "dict", "object"] if sum(cfg) % 3 == 0 else ["file"]
            for way in ways:
                if way == "file":
                    m = Model.load(p)
                elif way == "string":
                    m = Model.loads(json.dumps(main), path=p)
                elif way == "dict":
                    before = json.dumps(main)
                    m = Model.load(main, path=p)
                    require(json.dumps(main) == before, "loading changes the document given", "include document")
                else:
                    with open(p) as f:
                        m = Model.load(f, path=p)
                require([(s.name, s.size) for s in m.scenarios.scenarios] == [("sc", 2)], "scenarios %s" % [(s.name, s.size) for s in m.scenarios.scenarios], "include scenarios")
                require(m.graph.number_of_edges() == 2, "%d edges" % m.graph.number_of_edges(), "include edges")
                got = observe(m)
                w = differ(got, ref)
                require(w is None, "sections %s of the document in included files (loaded from %s): %s" % (cfg, way, w), "include")
                tr.step(5)
                tr.state((tuple(cfg), way))
            for bad in (["nofile.json"], ["one.json", "sub/none.json"], ["one.txt"]):
                refused(dict(main, includes=bad), "include of %s" % bad, "include", tr, path=p)
        finally:
            shutil.rmtree(folder)
    tr.outcome = tuple(cfg[:3])


# ---------------------------------------------------------------------------------- errors in the document
def leaves(x, path=()):
    if isinstance(x, dict):
        for k, v in x.items():
            yield from leaves(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from leaves(v, path + (i,))
    else:
        yield path, x


def dicts(x, path=()):
    if isinstance(x, dict):
        yield path, x
        for k, v in x.items():
            yield from dicts(v, path + (k,))
    elif isinstance(x, list):
        for i, v in enumerate(x):
            yield from dicts(v, path + (i,))


def at(d, path):
    for k in path:
        d = d[k]
    return d


def names_of(d):
    return {n["name"] for n in d["nodes"]} | set(d.get("parameters", {})) | set(d.get("recorders", {})) | {s["name"] for s in d.get("scenarios", [])} | set(d.get("tables", {}))


def sources():
    out = {n: (lambda n=n: zoo_doc(n)) for n in zoo.ZOO}
    out["env"] = env_doc
    out["small"] = small
    out["styled"] = styled
    return out


FREE = {"comment", "color", "tags", "position", "metadata", "data", "includes"}


def bad_paths(d):
    """all single corruptions: unknown reference, wrong key, missing key that is required, unknown type"""
    known = names_of(d)
    for sec in ("nodes", "edges", "parameters", "recorders", "scenarios", "tables"):
        for path, v in leaves(d.get(sec, {}), (sec,)):
            if isinstance(v, str) and v in known and path[-1] != "name" and not FREE & set(path):
                yield "ref", path
    for sec in ("nodes", "parameters", "recorders"):
        top = 2
        for path, x in dicts(d.get(sec, {}), (sec,)):
            if len(path) < top or FREE & set(path):
                continue
            for k in x:
                if k not in FREE and not (path[-1] == "tags"):
                    yield "key", path + (k,)
            if "type" in x:
                yield "type", path + ("type",)
                if sec != "parameters" or len(path) == top:
                    yield "notype", path + ("type",)
    for k in ("nodes", "edges"):
        yield "gone", (k,)
    for k in ("start", "end", "timestep"):
        yield "gone", ("timestepper", k)
    for i, n in enumerate(d["nodes"]):
        yield "twice", ("nodes", i)
    for i, s in enumerate(d.get("scenarios", [])):
        for k in ("name", "size"):
            yield "gone", ("scenarios", i, k)


def gen_errors(tier):
    for n, f in sources().items():
        ps = list(bad_paths(f()))
        for a in range(0, len(ps), 25):
            yield [n, a, min(a + 25, len(ps))]


def run_errors(cfg, tr):
    n, a, b = cfg
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        d0 = sources()[n]()
        for what, path in list(bad_paths(d0))[a:b]:
            d = json.loads(json.dumps(d0))
            x = at(d, path[:-1])
            k = path[-1]
            if what == "ref":
                x[k] = "nobody"
            elif what == "key":
                x["xx" + str(k)] = x.pop(k)
            elif what == "type":
                x[k] = "notype"
            elif what in ("notype", "gone"):
                del x[k]
            elif what == "twice":
                x.append(json.loads(json.dumps(x[k])))
            refused(d, "%s: %s at %s" % (n, what, "/".join(map(str, path))), "errors %s %s" % (what, path[-1] if what == "key" else path[0]), tr)
    tr.outcome = n


TYPES = (lambda x: {"type": "aggregated", "agg_func": "sum", "parameters": [x, {"type": "constant", "value": 1.0}]},
         lambda x: {"type": "offset", "parameter": x, "offset": 1.0},
         lambda x: {"type": "controlcurve", "storage_node": "sto", "control_curves": [x], "values": [1.0, 2.0]},
         lambda x: {"type": "recorderthreshold", "recorder": "r" + x, "threshold": 1.0, "predicate": "LT", "values": [1.0, 2.0]})


def gen_cycles(tier):
    for t in range(len(TYPES)):
        for f in itertools.product(range(5), repeat=2):
            yield [t, list(f)]


def run_cycles(cfg, tr):
    """four parameters, each referring to one of the four or to none: refused just when there is a cycle"""
    t, f = cfg
    with warnings.catch_warnings():
        warnings.simplefilter("ignore")
        for g in itertools.product(range(5), repeat=2):
            to = list(f) + list(g)
            d = small()
            d["parameters"] = {}
            d["recorders"] = {}
            d["nodes"][0]["max_flow"] = "q0"
            d["nodes"][2]["max_flow"] = 2.0
            for i, j in enumerate(to):
                if j == 4:
                    d["parameters"]["q%d" % i] = {"type": "constant", "value": 0.25 + i}
                else:
                    d["parameters"]["q%d" % i] = TYPES[(t + i) % len(TYPES)]("q%d" % j)
                d["recorders"]["rq%d" % i] = {"type": "numpyarrayparameter", "parameter": "q%d" % i}
            cyclic = False
            for i in range(4):
                j, n = i, 0
                while j != 4 and n < 5:
                    j, n = to[j], n + 1
                cyclic = cyclic or j != 4
            try:
                m = Model.loads(json.dumps(d))
                m.run()
            except Exception as e:
                require(cyclic, "references %s have no cycle but are refused: %r" % (to, e), "cycles none")
                tr.count("refused " + type(e).__name__)
            else:
                require(not cyclic, "the cycle in %s is not reported" % d["parameters"], "cycles")
            tr.step(5)
            tr.state((t, tuple(to)))
    tr.outcome = (t, tuple(f))


GROUPS.update({"data": (gen_data, run_data), "hashes": (gen_hashes, run_hashes), "include": (gen_include, run_include), "errors": (gen_errors, run_errors), "cycles": (gen_cycles, run_cycles)})
