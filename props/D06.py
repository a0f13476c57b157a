"""D06: mismatched data are refused by every rank alike."""
from dgrid import *

RULE = ("A case is a layout (see D01) and a history of exchanges and gathers, some with data that do not fit on some of the ranks: wrong length, "
        "columns of unequal length, another item shape or another number of columns than on other ranks, a reduction that does not exist. "
        "Non-trivial: more than one rank, and data that do not fit on some ranks but not all.")
ASSUMPTIONS = ["A rank without items may pass columns of any item shape in a packed exchange (there is nothing in them); the first rank's shape counts for all.",
               "A rank that does not answer within 8 seconds hangs."]
TIMEOUT = 25
BUDGET = {"quick": 25, "thorough": 300}

WHAT = ["length", "columns", "trailing", "number", "glen", "gtrail", "gmode", "valid"]


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        c = grid_strategy(draw)
        c["pts"] = pos_strategy(draw, maxn=4, bulk=20)
        c["pts"]["kind"] = draw(st.sampled_from(["dyadic", "edge", "far"]))
        c["smooth8"] = smooth_strategy(draw, len(c["edges8"]))
        c["steps"] = draw(st.lists(st.fixed_dictionaries({
            "what": st.sampled_from(WHAT), "who": st.integers(1, 255), "pack": st.booleans(), "k": st.integers(1, 3),
            "j": st.integers(0, 2), "by": st.sampled_from([1, -1, 2, 100]),
            "shape": st.sampled_from([[3], [], [2, 2]]), "wrong": st.sampled_from([[2], [3, 1], [1]]),
            "mode": st.sampled_from(["sum", "mean", "any", "all", "local"])}), min_size=1, max_size=5))
        return c
    return make()


def refused(comm, f, what, *args):
    """Every rank gets an exception, and each knows what the others got."""
    try:
        f()
    except (ValueError, TypeError, NotImplementedError, AssertionError) as e:
        got = None if type(e).__name__ != "Violation" else "a violation"
    else:
        got = "an answer"
    every = comm.allgather(got)
    require(all(g is None for g in every), what + ": accepted by ranks %s of %d", *(args + ([r for r, g in enumerate(every) if g], comm.size)))


_own = {}


def check(case, comm):
    import numpy as np
    # the calls have a communicator of their own: ranks out of step there do
    # not disturb what is compared here
    if comm.size not in _own:
        _own[comm.size] = comm.Dup()
    g, edges = make_grid(case, _own[comm.size])
    allx, _ = positions(case["pts"], edges, comm)
    me, size = comm.rank, comm.size
    n = [len(x) for x in allx]
    p, tr = given_pos(case["pts"], allx[me])
    layout = g.decompose(p, smoothing=np.array(case["smooth8"], "f8") / 8, transform=tr)
    off = sum(n[:me])
    ids = np.arange(off, off + n[me])
    here = np.asarray(layout.exchange(ids)).copy()
    m = comm.allgather(len(here))
    partial = 0

    def data(n, shape, ids):
        return np.full((n,) + tuple(shape), 7.0) if ids is None else ids.reshape((-1,) + (1,) * len(shape)) + np.zeros(shape)

    def valid():
        equal(layout.exchange(ids), here, "exchange afterwards")
        a, b = layout.exchange(data(n[me], [2], ids), ids)
        equal(a, data(len(here), [2], here), "exchange of two arrays afterwards")
        equal(b, here, "exchange of two arrays afterwards")
        equal(layout.gather(here, mode="all"), ids[layout.indices], "gather afterwards")

    for s in case["steps"]:
        what, k, j, wrong = s["what"], s["k"], s["j"], s["wrong"]
        who = [r for r in range(size) if s["who"] >> r & 1] or [0]
        shape = s["shape"]
        some = 0 < len(who) < size
        if what == "valid":
            valid()
            continue
        if what in ("length", "glen"):
            have = n if what == "length" else m
            if s["by"] < 0:
                who = [r for r in who if have[r] > 0]
                if not who:
                    continue
            ln = have[me] + (s["by"] if me in who else 0)
            if what == "length":
                a = [data(ln, shape, None) for _ in range(k)]
                refused(comm, lambda: layout.exchange(*a, pack=s["pack"]), "exchange of wrong lengths (pack=%s)", s["pack"])
            else:
                a = data(ln, shape, None)
                refused(comm, lambda: layout.gather(a, mode=s["mode"]), "gather (%s) of wrong lengths", s["mode"])
        elif what == "columns":
            k = max(k, 2)
            j = j % k
            if s["by"] < 0:
                who = [r for r in who if n[r] > 0]
                if not who:
                    continue
            a = [data(n[me] + (s["by"] if me in who and q == j else 0), shape, None) for q in range(k)]
            refused(comm, lambda: layout.exchange(*a, pack=s["pack"]), "exchange of columns of unequal lengths (pack=%s)", s["pack"])
        elif what in ("trailing", "gtrail", "number"):
            who = [r for r in who if r < size]
            if len(who) == size or shape == wrong:
                who = [size - 1] if size > 1 else []
            have = m if what == "gtrail" else n
            lenient = what != "gtrail" and (s["pack"] or what == "number")
            differs = [r for r in range(size) if (r in who) != (0 in who) and (have[r] > 0 or not lenient)]
            if not differs or shape == wrong:
                continue
            if what == "number":
                a = [data(n[me], shape, None) for _ in range(k + (me in who))]
                refused(comm, lambda: layout.exchange(*a), "exchange of different numbers of arrays")
            elif what == "trailing":
                j = j % k
                a = [data(n[me], wrong if me in who and q == j else shape, None) for q in range(k)]
                refused(comm, lambda: layout.exchange(*a, pack=s["pack"]), "exchange of items of different shapes (pack=%s)", s["pack"])
            else:
                a = data(m[me], wrong if me in who else shape, None)
                refused(comm, lambda: layout.gather(a, mode=s["mode"]), "gather (%s) of items of different shapes", s["mode"])
        else:
            a = data(m[me], shape, None)
            refused(comm, lambda: layout.gather(a, mode="total"), "gather with a reduction that does not exist")
            some = len(set(x > 0 for x in n)) > 1
        partial += some
    valid()
    return {"nontrivial": bool(size > 1 and partial), "labels": ["ranks:%d" % size] + sorted(set(s["what"] for s in case["steps"]))}


FAMILIES = [{"name": "refuse", "what": "exchanges and gathers of data that do not fit", "strategy": strategy,
             "max_examples": {"quick": 1500, "thorough": 40000}}]
