"""Small models, written as JSON documents, that together hold every kind of node,
parameter and recorder with a memory of its own. Each takes its inflow scaled by the
parameter "kin" and its demand from "kdem"."""
import json

FLOW = [3.0, 0.0, 5.0, 8.0, 1.0, 2.5, 0.5, 6.0, 9.0, 0.0, 0.0, 4.0, 7.0, 1.5, 2.0, 0.0]
DEM = [2.0, 4.0, 3.0, 5.0, 1.0, 6.0, 2.0, 3.5]


def cyc(a, n):
    return [a[i % len(a)] for i in range(n)]


def doc(start="2000-12-24", end="2001-01-07", timestep=1, nodes=(), edges=(), parameters=None, recorders=None, tables=None, steps=16):
    p = {"kin": {"type": "constant", "value": 1.0}, "kdem": {"type": "constant", "value": 1.0},
         "rain": {"type": "arrayindexed", "values": cyc(FLOW, steps + 1)},
         "want": {"type": "arrayindexed", "values": cyc(DEM, steps + 1)},
         "inflow": {"type": "aggregated", "agg_func": "product", "parameters": ["kin", "rain"]},
         "demand": {"type": "aggregated", "agg_func": "product", "parameters": ["kdem", "want"]}}
    p.update(parameters or {})
    d = {"metadata": {"title": "zoo", "minimum_version": "0.1"},
         "timestepper": {"start": start, "end": end, "timestep": timestep},
         "nodes": list(nodes), "edges": [list(e) for e in edges], "parameters": p, "recorders": dict(recorders or {})}
    if tables:
        d["tables"] = tables
    return d


def N(name, type, **kw):
    return dict(name=name, type=type, **kw)


def reservoir_part(**kw):
    res = dict(name="res", type="storage", max_volume=30.0, initial_volume=18.0, cost=-2.0)
    res.update(kw)
    nodes = [N("riv", "catchment", flow="inflow"), res, N("spill", "output", cost=1.0), N("dem", "output", max_flow="demand", cost=-10.0)]
    edges = [["riv", "res"], ["res", "spill"], ["res", "dem"]]
    return nodes, edges


def z_basic():
    return doc(nodes=[N("a", "input", max_flow="inflow", cost=1.0), N("b", "input", max_flow="seas", cost=2.0),
                      N("l", "link", max_flow=6.0, min_flow=0.0, cost=0.003), N("m", "link", cost="cost"), N("y", "output", max_flow="demand", cost=-9.0),
                      N("z", "output", max_flow=2.0, cost=-4.0),
                      N("ab", "aggregatednode", nodes=["a", "b"], max_flow=7.0)],
               edges=[["a", "l"], ["b", "l"], ["b", "m"], ["l", "y"], ["m", "z"], ["l", "m"]],
               parameters={"seas": {"type": "monthlyprofile", "values": [1.0] * 11 + [3.0]},
                           "cost": {"type": "dailyprofile", "values": [0.01 * (i + 1) for i in range(366)]}},
               recorders={"ncost": {"type": "numpyarraynodecost", "node": "m"}})


def z_reservoir():
    n, e = reservoir_part(cost="ccost")
    n += [N("res2", "storage", max_volume="mx", initial_volume=4.0, initial_volume_pc=0.4, min_volume=1.0, cost=-3.0, level="levp", area="areap"),
          N("tr", "link", max_flow="trf"), N("d2", "output", max_flow=2.0, cost=-8.0),
          N("both", "aggregatedstorage", storage_nodes=["res", "res2"]),
          N("evap", "output", max_flow="ev", cost=-30.0)]
    e += [["res", "tr"], ["tr", "res2"], ["res2", "d2"], ["res2", "evap"]]
    return doc(nodes=n, edges=e, parameters={
        "mx": {"type": "monthlyprofile", "values": [8.0] + [9.0] * 10 + [10.0]},
        "cc": {"type": "constant", "value": 0.5},
        "ccost": {"type": "controlcurve", "storage_node": "res", "control_curves": ["cc"], "values": [-1.0, -12.0]},
        "levp": {"type": "interpolatedvolume", "node": "res2", "volumes": [0.0, 5.0, 20.0], "values": [1.0, 4.0, 6.0], "interp_kwargs": {"kind": "linear"}},
        "areap": {"type": "polynomial1d", "storage_node": "res2", "coefficients": [0.5, 0.1, 0.01]},
        "ev": {"type": "aggregated", "agg_func": "product", "parameters": ["areap", 0.05]},
        "trf": {"type": "controlcurveinterpolated", "storage_node": "both", "control_curves": [0.8, 0.3], "values": [4.0, 2.0, 1.0, 0.0]},
        "idx": {"type": "controlcurveindex", "storage_node": "both", "control_curves": ["cc", 0.3]},
        "pw": {"type": "controlcurvepiecewiseinterpolated", "storage_node": "res", "control_curves": [0.6], "values": [[5.0, 3.0], [2.0, 1.0]]},
        "p2": {"type": "polynomial2dstorage", "storage_node": "res2", "parameter": "inflow", "coefficients": [[1.0, 0.5], [0.25, 0.125]]}},
        recorders={"lev": {"type": "numpyarraylevel", "node": "res2"}, "area_": {"type": "numpyarrayarea", "node": "res2"},
                   "norm": {"type": "numpyarraynormalisedstorage", "node": "res", "parameter": "cc"},
                   "minv": {"type": "minimumvolumestorage", "node": "res"},
                   "minthr": {"type": "minimumthresholdvolumestorage", "node": "res2", "threshold": 4.0},
                   "sdc": {"type": "storagedurationcurverecorder", "node": "res", "percentiles": [10.0, 50.0, 90.0]},
                   "ipx": {"type": "numpyarrayindexparameter", "parameter": "idx"},
                   "cnt": {"type": "timestepcountindexparameter", "parameter": "idx", "threshold": 1},
                   "acnt": {"type": "annualcountindexparameter", "parameter": "idx", "threshold": 1}})


def z_licences():
    nodes = [N("a", "input", max_flow=6.0, cost=1.0), N("b", "input", max_flow="inflow", cost=2.0), N("gw", "input", max_flow=50.0, cost=20.0),
             N("l", "link", cost=0.004), N("dem", "output", max_flow="demand", cost=-30.0), N("d2", "output", max_flow=2.0, cost=-25.0),
             N("vs", "virtualstorage", nodes=["a"], factors=[1.0], max_volume=30.0, initial_volume=30.0),
             N("an", "annualvirtualstorage", nodes=["a", "b"], factors=[1.0, 0.5], max_volume=16.0, initial_volume=12.0, reset_day=2, reset_month=1),
             N("se", "seasonalvirtualstorage", nodes=["b"], max_volume=6.0, initial_volume=5.0, reset_day=28, reset_month=12, end_day=3, end_month=1,
               reset_to_initial_volume=True),
             N("mo", "monthlyvirtualstorage", nodes=["d2"], max_volume=9.0, initial_volume=7.0, months=1),
             N("ro", "rollingvirtualstorage", nodes=["dem"], max_volume=14.0, initial_volume=10.0, timesteps=4),
             N("anp", "annualvirtualstorage", nodes=["l"], max_volume="cap", initial_volume=40.0, initial_volume_pc=0.8, reset_day=31, reset_month=12)]
    return doc(nodes=nodes, edges=[["a", "l"], ["b", "l"], ["gw", "l"], ["l", "dem"], ["l", "d2"], ["gw", "d2"]],
               parameters={"cap": {"type": "monthlyprofile", "values": [45.0] * 11 + [50.0]}})


def z_compound():
    nodes = [N("src", "catchment", flow="inflow"), N("top", "input", max_flow=20.0, cost=8.0),
             N("pw", "piecewiselink", nsteps=3, max_flows=[2.0, "pwmax", None], costs=[-6.0, 1.0, 3.0]),
             N("gauge", "rivergauge", mrf="mrf", mrf_cost=-15.0, cost=0.0),
             N("delay", "delaynode", timesteps=2, initial_flow=1.5),
             N("loss", "losslink", loss_factor=0.25, max_flow=9.0),
             N("brk", "breaklink", max_flow=5.0),
             N("end", "output", cost=0.5), N("ab", "output", max_flow="demand", cost=-7.0), N("d3", "output", max_flow=3.0, cost=-9.0),
             N("agg", "aggregatednode", nodes=["ab", "d3"], factors=[2.0, 1.0])]
    edges = [["src", "gauge"], ["src", "ab"], ["gauge", "delay"], ["delay", "pw"], ["pw", "end"], ["src", "end"], ["top", "loss"], ["loss", "brk"],
             ["brk", "d3"], ["top", "pw"], ["brk", "end"]]
    return doc(nodes=nodes, edges=edges, parameters={"pwmax": {"type": "constant", "value": 1.0}, "mrf": {"type": "monthlyprofile", "values": [2.0] + [1.0] * 11}})


def z_splits():
    nodes = [N("src", "catchment", flow="inflow"), N("more", "input", max_flow=4.0, cost=12.0),
             N("sp", "riversplit", factors=[3.0, 1.0], slot_names=["river", "side"]),
             N("sg", "riversplitwithgauge", mrf=1.0, mrf_cost=-20.0, cost=0.0, factors=[2.0, 1.0], slot_names=["river", "off"]),
             N("ms", "multisplitlink", nsteps=2, extra_slots=1, slot_names=["a", "b"], factors=[1.0, 1.0], costs=[-1.0, 0.5], max_flows=[1.0, 6.0]),
             N("sea", "output", cost=0.0), N("t1", "output", cost=0.0), N("t2", "output", cost=0.0), N("t3", "output", max_flow="demand", cost=-3.0)]
    return doc(nodes=nodes, edges=[["src", "sp"], ["sp", "sg", "river", None], ["sp", "t1", "side", None], ["sg", "ms", "river", None], ["sg", "t2", "off", None],
                                   ["ms", "sea", "a", None], ["ms", "t3", "b", None], ["more", "ms"]])


def z_thresholds():
    n, e = reservoir_part()
    n += [N("b", "input", max_flow="ctl", cost=3.0)]
    e += [["b", "dem"]]
    P = {"st": {"type": "storagethreshold", "storage_node": "res", "threshold": 17.0, "values": [1.0, 5.0], "predicate": "LT"},
         "nt": {"type": "nodethreshold", "node": "dem", "threshold": "thr", "values": [2.0, 6.0], "predicate": "GE"},
         "ntr": {"type": "nodethreshold", "node": "spill", "threshold": 0.5, "values": [0.0, 1.0], "predicate": ">", "ratchet": True},
         "thr": {"type": "constant", "value": 3.0},
         "ptr": {"type": "parameterthreshold", "parameter": "inflow", "threshold": 7.5, "values": [0.25, 1.25], "predicate": "GT", "ratchet": True},
         "str": {"type": "storagethreshold", "storage_node": "res", "threshold": 16.5, "values": [0.125, 0.75], "predicate": "<", "ratchet": True},
         "ndr": {"type": "nodethreshold", "node": "dem", "threshold": 5.5, "values": [0.0, 0.5], "predicate": ">", "ratchet": True},
         "rtr": {"type": "recorderthreshold", "recorder": "tot", "threshold": 0.5, "values": [0.0, 1.5], "predicate": ">", "ratchet": True},
         "mt": {"type": "multiplethresholdindex", "node": "riv", "thresholds": [5.0, "thr", 1.0]},
         "mtp": {"type": "multiplethresholdparameterindex", "parameter": "inflow", "thresholds": [6.0, 2.0]},
         "pt": {"type": "parameterthreshold", "parameter": "inflow", "threshold": "demand", "values": [0.5, 3.0], "predicate": "GT"},
         "rt": {"type": "recorderthreshold", "recorder": "tot", "threshold": 3.0, "values": [4.0, 8.0], "predicate": "GE"},
         "yt": {"type": "currentyearthreshold", "threshold": 2001, "values": [1.0, 2.0], "predicate": "GE"},
         "od": {"type": "currentordinaldaythreshold", "threshold": 730483, "values": [1.0, 2.0], "predicate": "GE"},
         "ctl": {"type": "aggregated", "agg_func": "sum", "parameters": ["st", "nt", "pt", "rt", "ntr", "mt", "ptr", "str", "ndr", "rtr"]}}
    return doc(nodes=n, edges=e, parameters=P, recorders={
        "tot": {"type": "numpyarraynode", "node": "spill"},
        "ev": {"type": "event", "threshold": "st"}, "ev2": {"type": "event", "threshold": "nt", "minimum_event_length": 2, "tracked_parameter": "inflow"},
        "evd": {"type": "eventduration", "event_recorder": "ev"}, "evs": {"type": "eventstatistic", "event_recorder": "ev2"}})


def z_memory():
    n, e = reservoir_part(min_volume=2.0)
    n += [N("b", "input", max_flow="rm", cost=3.0), N("c", "input", max_flow="dl", cost=4.0), N("d", "output", max_flow="fl", cost=-6.0)]
    e += [["b", "dem"], ["c", "dem"], ["c", "d"], ["res", "d"]]
    P = {"rm": {"type": "rollingmeanflownode", "node": "dem", "timesteps": 3, "initial_flow": 2.5},
         "dl": {"type": "flowdelay", "node": "riv", "timesteps": 3, "initial_flow": 1.25},
         "fl": {"type": "flow", "node": "b", "initial_value": 0.75},
         "sv": {"type": "storage", "storage_node": "res"}, "svp": {"type": "storage", "storage_node": "res", "use_proportional_volume": True},
         "df": {"type": "deficit", "node": "dem"}, "dc": {"type": "discountfactor", "rate": 0.05, "base_year": 2000},
         "ifl": {"type": "interpolatedflow", "node": "dem", "flows": [0.0, 3.0, 12.0], "values": [1.0, 2.0, 0.0], "interp_kwargs": {"kind": "linear"}},
         "iv": {"type": "interpolatedvolume", "node": "res", "volumes": [0.0, 10.0, 40.0], "values": [0.0, 3.0, 5.0], "interp_kwargs": {"kind": "linear"}},
         "sl": {"type": "scaledprofile", "scale": 0.5, "profile": "rm"}}
    return doc(nodes=n, edges=e, parameters=P, recorders={
        "roll": {"type": "rollingmeanflownode", "node": "dem", "timesteps": 3}, "rollp": {"type": "rollingwindowparameter", "parameter": "rm", "window": 3, "agg_func": "mean"},
        "tf": {"type": "totalflownode", "node": "dem", "factor": 2.0}, "mf": {"type": "meanflownode", "node": "dem"}, "td": {"type": "totaldeficitnode", "node": "dem"},
        "dfq": {"type": "deficitfrequencynode", "node": "dem"}, "tp": {"type": "totalparameter", "parameter": "df"}, "mp": {"type": "meanparameter", "parameter": "sv"},
        "dn": {"type": "numpyarraynodedeficit", "node": "dem"}, "sr": {"type": "numpyarraynodesuppliedratio", "node": "dem"}, "cr": {"type": "numpyarraynodecurtailmentratio", "node": "dem"},
        "aggr": {"type": "aggregated", "recorders": ["tf", "mf"], "recorder_agg_func": "sum"}})


def z_licence_params():
    n = [N("a", "input", max_flow="sum", cost=1.0), N("b", "input", max_flow="an", cost=2.0), N("c", "input", max_flow="ex", cost=0.5), N("h", "input", max_flow="hy", cost=0.75),
         N("t", "input", max_flow="ts", cost=0.25), N("g", "input", max_flow="inflow", cost=3.0), N("dem", "output", max_flow=40.0, cost=-9.0), N("l", "link", max_flow="demand")]
    e = [[x, "l"] for x in "abchtg"] + [["l", "dem"]]
    P = {"an": {"type": "annuallicense", "node": "b", "amount": 400.0}, "ex": {"type": "annualexponentiallicense", "node": "c", "amount": 200.0, "max_value": 5.0, "k": 1.5},
         "hy": {"type": "annualhyperbolalicense", "node": "h", "amount": 300.0, "value": 2.0}, "ts": {"type": "constant", "value": 1.25},
         "sum": {"type": "aggregated", "agg_func": "min", "parameters": ["sl", 3.0]}, "sl": {"type": "storagelicense", "node": "a", "amount": 20.0}}
    return doc(nodes=n, edges=e, parameters=P)


def z_profiles():
    P = {"w": {"type": "weeklyprofile", "values": [0.1 * i for i in range(52)]}, "m": {"type": "monthlyprofile", "values": [float(i) for i in range(12)], "interp_day": "first"},
         "u": {"type": "uniformdrawdownprofile", "reset_day": 29, "reset_month": 12, "residual_days": 3},
         "rb": {"type": "rbfprofile", "days_of_year": [1, 90, 180, 270], "values": [2.0, 3.0, 1.0, 4.0]},
         "ha": {"type": "annualharmonicseries", "mean": 3.0, "amplitudes": [1.0, 0.5], "phases": [0.2, 0.7]},
         "wa": {"type": "weightedaverageprofile", "storages": ["res", "res2"], "profiles": ["dp", "m"]},
         "dp": {"type": "dailyprofile", "values": [float(i) for i in range(366)]},
         "mix": {"type": "aggregated", "agg_func": "mean", "parameters": ["w", "m", "u", "rb", "ha", "wa"]}}
    n, e = reservoir_part()
    n += [N("res2", "storage", max_volume=12.0, initial_volume=6.0, cost=-1.0), N("b", "input", max_flow="mix", cost=0.5)]
    e += [["b", "res2"], ["res2", "dem"]]
    return doc(nodes=n, edges=e, parameters=P)


def z_arith():
    P = {}
    for f in ("sum", "min", "max", "mean", "median", "product"):
        P["ag_" + f] = {"type": "aggregated", "agg_func": f, "parameters": ["inflow", "demand", 2.5]}
    for f in ("sum", "min", "max", "any", "all", "product"):
        P["ix_" + f] = {"type": "aggregatedindex", "agg_func": f, "parameters": ["i1", "i2"]}
    P.update({"i1": {"type": "multiplethresholdparameterindex", "parameter": "inflow", "thresholds": [6.0, 2.0]},
              "i2": {"type": "parameterthreshold", "parameter": "demand", "threshold": 3.0, "predicate": "GT"},
              "ia": {"type": "indexedarray", "index_parameter": "i1", "params": ["inflow", 4.0, "dv"]},
              "dv": {"type": "division", "numerator": "inflow", "denominator": "demand"},
              "ng": {"type": "negative", "parameter": "inflow"}, "mxp": {"type": "max", "parameter": "ng", "threshold": -2.0}, "mnp": {"type": "min", "parameter": "inflow", "threshold": 4.0},
              "ngm": {"type": "negativemax", "parameter": "ng", "threshold": 1.0}, "ngn": {"type": "negativemin", "parameter": "inflow", "threshold": -1.0},
              "of": {"type": "offset", "parameter": "inflow", "offset": 1.5},
              "ip": {"type": "interpolated", "parameter": "inflow", "x": [0.0, 4.0, 20.0], "y": [1.0, 5.0, 0.0]},
              "iq": {"type": "interpolatedquadrature", "upper_parameter": "inflow", "x": [0.0, 4.0, 20.0], "y": [1.0, 5.0, 0.0]},
              "pi": {"type": "piecewiseintegralparameter", "parameter": "inflow", "x": [0.0, 4.0, 20.0], "y": [1.0, 5.0, 0.0]},
              "po": {"type": "polynomial1d", "parameter": "inflow", "coefficients": [1.0, 0.5, 0.05]},
              "bs": {"type": "binarystep", "value": 0.5, "output": 3.0}, "re": {"type": "rectifier", "value": 0.5, "max_output": 4.0}, "lo": {"type": "logistic", "value": 0.25},
              "all_": {"type": "aggregated", "agg_func": "sum", "parameters": ["ia", "mnp", "ip", "po", "bs"]}})
    return doc(nodes=[N("a", "input", max_flow="all_", cost=1.0), N("y", "output", max_flow="ag_max", cost=-2.0)], edges=[["a", "y"]], parameters=P)


def z_hydro():
    n, e = reservoir_part(level="lev")
    n += [N("turb", "link", max_flow="ht", cost=-4.0), N("tail", "output", cost=0.0)]
    e += [["res", "turb"], ["turb", "tail"]]
    P = {"lev": {"type": "interpolatedvolume", "node": "res", "volumes": [0.0, 15.0, 60.0], "values": [10.0, 14.0, 20.0], "interp_kwargs": {"kind": "linear"}},
         "ht": {"type": "hydropowertarget", "target": "pow", "water_elevation_parameter": "lev", "max_flow": "hmx", "min_flow": "hmn", "turbine_elevation": 1.0, "efficiency": 0.9,
                "flow_unit_conversion": 1.0},
         "pow": {"type": "constant", "value": 0.35}, "hmx": {"type": "constant", "value": 6.0}, "hmn": {"type": "constant", "value": 0.0}}
    return doc(nodes=n, edges=e, parameters=P, recorders={
        "hp": {"type": "hydropower", "node": "turb", "water_elevation_parameter": "lev", "turbine_elevation": 1.0, "efficiency": 0.9, "flow_unit_conversion": 1.0},
        "he": {"type": "totalhydroenergy", "node": "turb", "water_elevation_parameter": "lev", "turbine_elevation": 1.0, "efficiency": 0.9, "flow_unit_conversion": 1.0}})


def z_recorders():
    n, e = reservoir_part()
    return doc(nodes=n, edges=e, parameters={"ci": {"type": "controlcurveindex", "storage_node": "res", "control_curves": [0.6, 0.3]}}, recorders={
        "fdc": {"type": "flowdurationcurve", "node": "dem", "percentiles": [0.0, 25.0, 50.0, 100.0]},
        "sfdc": {"type": "seasonalflowdurationcurve", "node": "dem", "percentiles": [10.0, 50.0], "months": [12]},
        "act": {"type": "annualcountindexthreshold", "parameters": ["ci"], "threshold": 1},
        "atf": {"type": "annualtotalflow", "nodes": ["dem", "spill"], "factors": [1.0, 0.5]},
        "dpr": {"type": "numpyarraydailyprofileparameter", "parameter": "inflow"},
        "kde": {"type": "gaussiankdestorage", "node": "res", "resample_freq": "M" if False else None, "target_volume_pc": 0.2, "num_pdf": 11},
        "st": {"type": "numpyarraystorage", "node": "res", "temporal_agg_func": "median"},
        "stp": {"type": "numpyarraystorage", "node": "res", "proportional": True},
        "np": {"type": "numpyarrayparameter", "parameter": "inflow", "temporal_agg_func": "max"},
        "nn": {"type": "numpyarraynode", "node": "dem", "factor": 3.0, "temporal_agg_func": "sum"}})


def z_series():
    days = ["2000-12-%02d" % d for d in range(20, 32)] + ["2001-01-%02d" % d for d in range(1, 12)]
    P = {"df": {"type": "dataframe", "data": {"x": {d: 0.5 * i for i, d in enumerate(days)}}, "parse_dates": True, "column": "x"},
         "tab": {"type": "dataframe", "table": "T", "column": "b", "timestep_offset": 1}}
    n, e = reservoir_part()
    n += [N("b", "input", max_flow="df", cost=0.25), N("c", "output", max_flow="tab", cost=-5.0)]
    e += [["b", "dem"], ["b", "c"]]
    return doc(nodes=n, edges=e, parameters=P, tables={"T": {"data": {"a": {d: 1.0 for d in days}, "b": {d: 1.0 + i % 5 for i, d in enumerate(days)}}, "parse_dates": True}})


def z_riverres():
    n = [N("riv", "catchment", flow="inflow"),
         N("res", "reservoir", max_volume=30.0, initial_volume=10.0, control_curve="curve", above_curve_cost=-1.0, cost=-12.0),
         N("rv", "river", max_flow=12.0), N("dis", "discharge", flow=0.5), N("sea", "output", cost=0.1), N("dem", "output", max_flow="demand", cost=-8.0)]
    return doc(nodes=n, edges=[["riv", "res"], ["res", "rv"], ["dis", "rv"], ["rv", "sea"], ["rv", "dem"]],
               parameters={"curve": {"type": "dailyprofile", "values": [0.4 + 0.0005 * i for i in range(366)]}})


def z_weekly():
    d = z_licences()
    d["timestepper"] = {"start": "2000-11-20", "end": "2001-02-20", "timestep": 7}
    for n in d["nodes"]:
        if n["name"] == "ro":
            n["max_volume"], n["initial_volume"] = 60.0, 50.0
        elif "max_volume" in n and not isinstance(n["max_volume"], str):
            n["max_volume"] *= 7
            n["initial_volume"] *= 7
    d["parameters"]["cap"]["values"] = [7 * v for v in d["parameters"]["cap"]["values"]]
    for n in d["nodes"]:
        if n["name"] == "anp":
            n["initial_volume"] *= 7
    return d


def z_monthly():
    d = z_memory()
    d["timestepper"] = {"start": "2000-03-01", "end": "2001-03-31", "timestep": "M"}
    for n in d["nodes"]:
        for k in ("max_volume", "initial_volume", "min_volume"):
            if k in n:
                n[k] *= 30
    for p in d["parameters"].values():
        if p["type"] == "interpolatedvolume":
            p["volumes"] = [30 * v for v in p["volumes"]]
    return d


ZOO = {k[2:]: v for k, v in list(globals().items()) if k.startswith("z_")}


def build(name, edit=None, **kw):
    from pywr.core import Model
    d = json.loads(json.dumps(ZOO[name]()))
    for r in d["recorders"].values():
        for k in [k for k, v in r.items() if v is None]:
            del r[k]
    if edit:
        edit(d)
    return Model.loads(json.dumps(d), **kw)
