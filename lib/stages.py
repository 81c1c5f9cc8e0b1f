"""What each property's check runs."""
import core
import c22
import c23
import c24
import c27

LEVEL = {"C12": "fault_enumeration", "C15": "fault_enumeration", "C16": "fault_enumeration"}
QUICK_BUDGET, THOROUGH_BUDGET = 240, 3600


def budget():
    return QUICK_BUDGET if core.TIER == "quick" else THOROUGH_BUDGET


def harness(prop, res, dic):
    mon = core.build_harness()
    res.rule = core.run([mon, "rule", prop]).stdout.strip()
    core.workers(mon, prop, dic, res, budget())
    return mon


EXTRA = {}


# decided by their own stages alone
OWN = {"C22": [c22.stage], "C23": [c23.stage], "C24": [c24.stage], "C27": [c27.stage]}


def run_property(prop, res, dic):
    if prop in OWN:
        for f in OWN[prop]:
            f(prop, res, dic)
        return
    harness(prop, res, dic)
    for f in EXTRA.get(prop, []):
        f(prop, res, dic)


def replay(j):
    return {"c22": c22.replay, "c23": c23.replay, "c24": c24.replay, "c27": c27.replay}[j["stage"]](j)
