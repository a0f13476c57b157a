"""C01: pulls and pushes between the images of a co-array."""
from common import *

RULE = ("A history of pulls, pushes and local changes of a co-array of 1 to 3 dimensions, of rows, blocks of rows, single items and strided parts, between any two images (or within one), with synchronisation with all or some images, on 1 to 6 (thorough: 8) ranks; compared to arrays of one process after each. "
        "Between two synchronisations no item is written twice. Non-trivial: more than one image, and a transfer between two.")
ASSUMPTIONS = ["Both sides of a transfer have the same shape; co-arrays are their own source (the module documents that others are not supported).",
               "A rank that does not answer in time hangs."]
TIMEOUT = 25
BUDGET = {"quick": 20, "thorough": 200}


def strategy(tier):
    st = S()

    @st.composite
    def make(draw):
        n = draw(st.sampled_from([1, 2, 2, 3, 4] if tier == "quick" else [2, 3, 4, 5, 8]))
        op = st.fixed_dictionaries({"who": st.integers(0, 7), "to": st.integers(0, 7), "kind": st.sampled_from(["pull", "push", "push", "pushcopy", "pushint"]),
                                    "form": st.sampled_from(["row", "row", "block", "part", "item", "nested", "strided"]),
                                    "src": st.integers(0, 7), "dst": st.integers(0, 7)})
        sync = st.one_of(st.just("all"), st.just("all"), st.lists(st.integers(0, 255), min_size=n, max_size=n))
        epochs = draw(st.lists(st.tuples(st.lists(op, min_size=0, max_size=6), sync).map(list), min_size=1, max_size=4))
        return {"nranks": n, "rows": draw(st.integers(2, 8)), "trail": draw(st.sampled_from([[], [3], [3], [1], [2, 3], [4000]])),
                "dtype": draw(st.sampled_from(["f8", "f8", "f4", "i4", "c16"])), "order": draw(st.sampled_from(["C", "C", "F"])),
                "view": draw(st.booleans()), "epochs": epochs}
    return make()


_own = {}


def index(form, row, rows, trail):
    """A list of successive indices within `row` (or two rows, for blocks)."""
    if form == "block":
        return [slice(row, row + 2)]
    if form == "nested":
        return [slice(row, None), 0]
    if form == "item":
        return [(row,) + (0,) * len(trail)]
    if form == "part" and trail:
        return [(row, slice(0, (trail[0] + 1) // 2))]
    if form == "strided" and trail:
        return [(slice(row, row + 1), Ellipsis, slice(None, None, 2))]
    return [row]


def walk(a, idx):
    for i in idx:
        a = a[i]
    return a


def assign(a, idx, v):
    walk(a, idx[:-1])[idx[-1]] = v


def check(case, comm):
    import numpy as np
    from pmesh import coarray as module
    module.print = lambda *a, **k: None
    if comm.size not in _own:
        _own[comm.size] = comm.Dup()
    me, size = comm.rank, comm.size
    rows, trail, dtype = case["rows"], tuple(case["trail"]), np.dtype(case["dtype"])
    shape = (rows,) + trail
    model = [(np.arange(np.prod(shape)).reshape(shape) + 10000 * r).astype(dtype) for r in range(size)]
    coa = module.coarray.fromarray(_own[size], np.array(model[me], order=case["order"]))
    require((coa.thisimage, coa.num_images) == (me, size), "image %s of %s", coa.thisimage, coa.num_images)
    pending = []        # [who, kind, other, index here, index there, what to send]
    between = 0
    stamp = 1
    for e, (ops, sync) in enumerate(case["epochs"]):
        # (an item that is written twice would depend on the order of messages)
        free = [set(range(rows)) for _ in range(size)]
        for p in pending:
            free[p[0] if p[1] == "pull" else p[2]] -= p[6]
        for o in ops:
            who, to, form = o["who"] % size, o["to"] % size, o["form"]
            at = who if o["kind"] == "pull" else to
            need = 2 if form == "block" else 1
            dst = [r for r in range(rows) if all(q in free[at] for q in range(r, r + need))]
            if not dst:
                continue
            dst = dst[o["dst"] % len(dst)]
            src = o["src"] % (rows - need + 1)
            took = set(range(dst, dst + need))
            free[at] -= took
            here, there = (dst, src) if o["kind"] == "pull" else (src, dst)
            here, there = index(form, here, rows, trail), index(form, there, rows, trail)
            stamp += 1
            value = None
            if o["kind"] in ("pushcopy", "pushint"):
                value = np.asarray(walk(model[who], here)).copy() * 0 + stamp
                if o["kind"] == "pushint":
                    value = value.real.astype("i8" if dtype.itemsize != 8 else "i2")
            elif o["kind"] == "push" and np.ndim(walk(model[who], here)) == 0:
                # (a single item has no view)
                value = walk(model[who], here).copy()
            if me == who:
                if o["kind"] == "pull":
                    assign(coa, here, walk(coa(to), there))
                elif o["kind"] != "push":
                    assign(coa(to), there, value)
                else:
                    assign(coa(to), there, walk(coa, here))
            pending.append([who, "pull" if o["kind"] == "pull" else "push", to, here, there, value, took])
            between += who != to
        # nothing moves before it is synchronised, and what is sent is what is there then
        equal(np.asarray(coa), model[me], "epoch %d: image %d of %d before synchronisation", e, me, size)
        busy = set()
        for p in pending:
            busy |= {(p[0] if p[1] == "pull" else p[2], r) for r in p[6]}
        row = e % rows
        for r in range(size):
            if (r, row) not in busy:
                model[r][row] = 500 + 7 * r + e
                if r == me:
                    coa[row] = 500 + 7 * r + e
        images = [list(range(size)) if sync == "all" else [q for q in range(size) if sync[r] >> q & 1] for r in range(size)]
        go = [p for p in pending if p[2] in images[p[0]]]
        pending = [p for p in pending if p[2] not in images[p[0]]]
        old = [m.copy() for m in model]
        for who, kind, to, here, there, value, took in go:
            if kind == "pull":
                assign(model[who], here, walk(old[to], there))
            else:
                assign(model[to], there, walk(old[who], here) if value is None else value)
        coa.sync(None if sync == "all" and case["view"] else images[me])
        equal(np.asarray(coa), model[me], "epoch %d: image %d of %d after synchronisation with %s", e, me, size, images[me])
    return {"nontrivial": bool(size > 1 and between), "labels": ["ranks:%d" % size, "order:" + case["order"]] + sorted(set(o["kind"] for ops, _ in case["epochs"] for o in ops))}


FAMILIES = [{"name": "transfer", "what": "histories of pulls and pushes", "strategy": strategy, "max_examples": {"quick": 1500, "thorough": 40000}}]
