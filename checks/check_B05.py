"""B05: splitting distributes the graph and conserves it."""
from split import split_case
RULE = "vertices went to parts outside of the original ones; distinct program texts are counted"

def PROPERTY(s, ctx): split_case(s, ctx)

PLAN = {"quick": {"runs": [(2, 3000), (3, 3000), (4, 3000), (5, 2000), (6, 2000), (7, 1000)], "budget": 35},
        "thorough": {"runs": [(n, 40000) for n in (2, 3, 4, 5, 6, 7, 8)], "budget": 900}}
