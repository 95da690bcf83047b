RULES = {}


def rule(pid, explain, **kw):
    def deco(f):
        assert pid not in RULES, pid
        RULES[pid] = dict(fn=f, explain=explain, **kw)
        return f
    return deco


from . import pool  # noqa
from . import common  # noqa
from . import controller  # noqa
from . import ledger  # noqa
from . import liquidation  # noqa
from . import strategy  # noqa
from . import oracle  # noqa
from . import admin  # noqa
from . import views  # noqa
from . import aggregator  # noqa
from . import contracts  # noqa

# properties whose truth rests on another one: their obligations are decided (and reported) along with it
NEEDS = {
    "P01": ["P10", "P12"], "P02": ["P16"], "P03": ["M01"], "P05": ["M01"], "P07": ["M01"], "P10": ["P11", "P12", "M01"], "P11": ["M01"],
    "P12": ["M01"], "P13": ["P10"], "P15": ["M01"], "P16": ["M01"], "P17": ["M01"], "P18": ["M01"], "P20": ["P11", "M01"],
    "A03": ["A02"],
    "C27": ["C26", "C25", "M01"], "C08": ["C30", "C31"], "C06": ["M01"], "C07": ["M01"], "C25": ["M01"], "C30": ["M01"],
}


def closure(pid):
    seen, todo = [], [pid]
    while todo:
        p = todo.pop(0)
        if p not in seen and p in RULES:
            seen.append(p)
            todo += NEEDS.get(p, [])
    return seen
