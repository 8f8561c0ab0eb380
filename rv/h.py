"""Shared helpers of the checks."""
import math
from collections import Counter


def pad(df_kw=None):
    return df_kw or {}


def num(x):
    return float(x)


def close(a, b, rel=1e-9, ab=1e-6):
    if a is None or b is None:
        return a is b
    if isinstance(a, float) and isinstance(b, float) and math.isnan(a) and math.isnan(b):
        return True
    return math.isclose(float(a), float(b), rel_tol=rel, abs_tol=ab)


def ints(d):
    """plain dict with python ints"""
    return {k: int(v) for k, v in dict(d).items()}


DEF_KEYS = dict(activity_key="concept:name", timestamp_key="time:timestamp", case_id_key="case:concept:name")
ALT = {"concept:name": "Act", "time:timestamp": "When", "org:resource": "Who"}
ALT_CASE = "Cid"


def both(rng, alog, alt=None, order=None, index=None):
    """[(kind, object, key kwargs)] : EventLog and dataframe views of the same abstract log"""
    alt = rng.random() < 0.35 if alt is None else alt
    rn = ALT if alt else None
    ck = ALT_CASE if alt else "case:concept:name"
    order = order if order is not None else rng.choice([None, "interleave", "time"])
    index = index if index is not None else rng.choice([None, None, "shuffled", "dup"])
    kw = dict(activity_key="Act", timestamp_key="When", case_id_key="Cid") if alt else {}
    df = alog.to_df(rn, ck, order=order, index=index, rng=rng)
    log = alog.to_log(rn)
    lkw = {k: v for k, v in kw.items() if k != "case_id_key"}
    return [("log", log, lkw), ("df", df, kw)]


def dfg_of(traces, w=1, once=False):
    c = Counter()
    for t in traces:
        pairs = [(t[i], t[i + w]) for i in range(len(t) - w)]
        c.update(set(pairs) if once else pairs)
    return dict(c)
