"""pmesh.pm is written against a pfft-python whose LocalBuffer takes `base`,
answers `in`, and lets several partitions view one block of memory.  The
installed pfft-python 0.1.12 has an older LocalBuffer.  This module wraps the
installed classes so that pmesh.pm runs on the real PFFT library here.

Nothing of pmesh is replaced: LocalBuffer and Plan only unwrap and forward.

The installed binding refuses process meshes with as many dimensions as the
mesh, which newer ones take.  For these, SoftPartition and SoftPlan stand in:
the same interface, with the whole mesh gathered and transformed by NumPy.
"""
import functools
import operator


class SoftPartition(object):
    """Blocks of ceil(n / np) along every axis; transposed output is divided by
    the process mesh rotated by one axis, and its first axis runs fastest."""

    def __init__(self, type, n, procmesh, flags, transposed, real, single):
        import numpy
        self.n = numpy.array(n, dtype="int64")
        self.ndim = len(self.n)
        self.type = type
        self.flags = flags
        self.procmesh = procmesh
        comm = procmesh.comm
        shape = [int(x) for x in procmesh.np]
        self._comm = comm
        self.i_dtype = numpy.dtype(("f4" if single else "f8") if real else ("c8" if single else "c16"))
        self.o_dtype = numpy.dtype("c8" if single else "c16")
        nd = self.ndim
        no = self.n.copy()
        if real:
            no[-1] = no[-1] // 2 + 1
        turn = [(d + 1) % nd if transposed else d for d in range(nd)]

        def split(n, order):
            edges, places = [], []
            for d in range(nd):
                p = shape[order[d]]
                block = -(-int(n[d]) // p)
                edges.append(numpy.minimum(numpy.arange(p + 1) * block, n[d]))
            for r in range(comm.size):
                at = numpy.unravel_index(r, shape)
                lo = numpy.array([edges[d][at[order[d]]] for d in range(nd)])
                hi = numpy.array([edges[d][at[order[d]] + 1] for d in range(nd)])
                # (as the library does: parts without points start at 0)
                places.append((numpy.where(hi > lo, lo, 0), hi - lo))
            return edges, places

        self.i_edges, self._i = split(self.n, list(range(nd)))
        self.o_edges, self._o = split(no, turn)
        self.local_i_start, self.local_i_shape = self._i[comm.rank]
        self.local_o_start, self.local_o_shape = self._o[comm.rank]

        def strides(shape, order, item):
            out = [0] * nd
            for d in reversed(order):
                out[d] = item
                item *= max(int(shape[d]), 1)
            return numpy.array(out)
        self.local_i_strides = strides(self.local_i_shape, list(range(nd)), self.i_dtype.itemsize)
        self.local_o_strides = strides(self.local_o_shape, list(range(1, nd)) + [0] if transposed else list(range(nd)), self.o_dtype.itemsize)
        self.alloc_local = functools.reduce(operator.mul, [int(x) + 2 for x in self.n], 1)


class SoftMemory(object):
    def __init__(self, partition):
        import numpy
        self.bytes = numpy.empty(partition.alloc_local * 16 + 16, "u1")


class SoftPlan(object):
    def __init__(self, partition, forward, inplace):
        self.p, self.forward, self.inplace = partition, forward, inplace

    def execute(self, i, o):
        import numpy
        p = self.p
        if (i._mem is o._mem) != self.inplace:
            raise ValueError("inplace status mismatch with the plan")
        src, dst = (i.view_input, o.view_output) if self.forward else (i.view_output, o.view_input)
        src, dst = src(partition=p), dst(partition=p)
        where, there = (p._i, p._o) if self.forward else (p._o, p._i)
        parts = p._comm.allgather(numpy.array(src, order="C"))
        full = numpy.zeros([int(e[-1]) for e in (p.i_edges if self.forward else p.o_edges)], "c16" if parts[0].dtype.kind == "c" else "f8")
        for (start, shape), v in zip(where, parts):
            full[tuple(slice(a, a + b) for a, b in zip(start, shape))] = v
        n = [int(x) for x in p.n]
        if p.i_dtype.kind == "f":
            full = numpy.fft.rfftn(full) if self.forward else numpy.fft.irfftn(full, s=n, axes=range(len(n))) * numpy.prod(n)
        else:
            full = numpy.fft.fftn(full) if self.forward else numpy.fft.ifftn(full) * numpy.prod(n)
        if not self.inplace:
            src[...] = numpy.nan        # these plans destroy their input
        start, shape = there[p._comm.rank]
        dst[...] = full[tuple(slice(a, a + b) for a, b in zip(start, shape))]


def install():
    import numpy
    import pfft
    from pfft import core
    if getattr(pfft, "_vf_shim", False):
        return
    try:
        import inspect
        if "base" in (core.LocalBuffer.__doc__ or ""):
            pfft._vf_shim = True
            return
    except Exception:
        pass

    import types
    pfft._vf_plain = types.SimpleNamespace(**vars(pfft))

    selfmesh = {}
    rooms = {}

    def roomy(partition):
        """A one-rank partition of the whole mesh, at least as large as any
        rank's share of it."""
        n = tuple(int(x) for x in partition.n)
        key = (n, int(partition.type))
        if key not in rooms:
            npd = len(n) - 1
            if npd not in selfmesh:
                selfmesh[npd] = core.ProcMesh([1] * npd, comm=pfft.MPI.COMM_SELF)
            flags = (pfft.Flags.PFFT_PRESERVE_INPUT | pfft.Flags.PFFT_PADDED_R2C
                     | pfft.Flags.PFFT_PADDED_C2R)
            rooms[key] = core.Partition(core.Type(key[1]), numpy.array([x + 2 for x in n]), selfmesh[npd], flags)
        assert rooms[key].alloc_local >= partition.alloc_local
        return rooms[key]

    real = (int(core.Type.PFFT_R2C), int(core.Type.PFFTF_R2C))

    def Partition(type, n, procmesh, flags):
        """In 0.1.12 i_edges of a padded real-to-complex partition ends at the
        padded length (10 for 8 points), and o_edges of a transposed one halves
        the first axis too.  pmesh.pm takes the ends for the shape of the mesh."""
        if len(procmesh.np) == len(n):
            kind = int(type)
            return SoftPartition(type, n, procmesh, flags, bool(int(flags) & int(pfft.Flags.PFFT_TRANSPOSED_OUT)),
                                 kind in real, kind in (int(core.Type.PFFTF_R2C), int(core.Type.PFFTF_C2C)))
        p = core.Partition(type, n, procmesh, flags)
        for d in range(p.ndim):
            e = p.i_edges[d]
            e[e > p.n[d]] = p.n[d]
            end = p.n[d]
            if int(type) in real and d == p.ndim - 1:
                end = end // 2 + 1
            e = p.o_edges[d]
            e[e >= e[-1]] = end
        return p

    class LocalBuffer(object):
        def __init__(self, partition, base=None):
            self.partition = partition
            # the transposed and the untransposed partition may need different
            # amounts of memory: make every block large enough for both.
            if base is None and isinstance(partition, SoftPartition):
                self._mem = SoftMemory(partition)
            elif base is None:
                self._mem = core.LocalBuffer(roomy(partition))
            else:
                self._mem = base._mem

        def __contains__(self, other):
            return isinstance(other, LocalBuffer) and other._mem is self._mem

        def __eq__(self, other):
            return isinstance(other, LocalBuffer) and other._mem is self._mem

        def __ne__(self, other):
            return not self == other

        __hash__ = object.__hash__

        def _raw(self):
            # the block of memory as bytes
            if isinstance(self._mem, SoftMemory):
                return self._mem.bytes.__array_interface__["data"][0], self._mem.bytes
            v = self._mem.view_input()
            addr = v.__array_interface__["data"][0]
            r = v
            return addr, r

        def _view(self, shape, strides, dtype):
            addr, keep = self._raw()
            n = int(numpy.prod(shape))

            class H(object):
                pass
            h = H()
            h.keep = (keep, self._mem)
            h._vf_buffer = self
            h.__array_interface__ = dict(
                data=(addr, False), version=3, typestr=numpy.dtype(dtype).str,
                shape=tuple(int(s) for s in shape),
                strides=tuple(int(s) for s in strides))
            return numpy.asarray(h)

        def view_input(self, partition=None):
            p = partition or self.partition
            return self._view(p.local_i_shape, p.local_i_strides, p.i_dtype)

        def view_output(self, partition=None):
            p = partition or self.partition
            return self._view(p.local_o_shape, p.local_o_strides, p.o_dtype)

        def view_raw(self, type=numpy.uint8):
            p = self.partition
            itemsize = numpy.dtype(p.i_dtype).itemsize
            if numpy.dtype(p.i_dtype).kind != "c":
                itemsize *= 2
            n = p.alloc_local * itemsize
            return self._view((n,), (1,), numpy.uint8).view(type)

    def unwrap(b):
        b = getattr(b, "_vf_buffer", b)
        return b._mem if isinstance(b, LocalBuffer) else b

    class Plan(object):
        def __init__(self, partition, direction, i, o=None, *args, **kwargs):
            if isinstance(partition, SoftPartition):
                self._plan = SoftPlan(partition, int(direction) == int(pfft.Direction.PFFT_FORWARD), i._mem is o._mem)
                return
            self._plan = core.Plan(partition, direction, unwrap(i), unwrap(o), *args, **kwargs)

        def execute(self, i, o=None):
            if isinstance(self._plan, SoftPlan):
                return self._plan.execute(getattr(i, "_vf_buffer", i), getattr(o, "_vf_buffer", o))
            return self._plan.execute(unwrap(i), unwrap(o))

        def __getattr__(self, name):
            return getattr(self._plan, name)

    pfft.LocalBuffer = LocalBuffer
    pfft.Plan = Plan
    pfft.Partition = Partition
    pfft._vf_shim = True
