"""Simulated MPI ranks: threads that meet in collectives, and the part of the mpi4py / petsc4py interface a mesh-parallel assembly uses.

PETSc here is built without MPI, so parallel drivers run against stand-ins that keep PETSc's rules: off-process entries travel at assembly, adding
and inserting may not be mixed without an assembly in between, collective calls must be made by every rank in the same order, ghost offsets of a
global section are encoded as -(g + 1).  Anything the stand-ins do not know raises Skip, never an alarm."""
import threading
import numpy as onp
import scipy.sparse as sp
import scipy.sparse.linalg as spl
from pbt.core import Skip, Violation


class Lost(Exception):
    """another rank failed first"""


class World:
    def __init__(self, size):
        self.size, self.local = size, threading.local()
        self.bar = threading.Barrier(size)
        self.slots = [None] * size
        self.done = [False] * size

    @property
    def rank(self):
        return getattr(self.local, 'rank', 0)

    def meet(self, tag, payload=None):
        self.slots[self.rank] = (tag, payload)
        try:
            self.bar.wait(timeout=240)
            got = list(self.slots)
            self.bar.wait(timeout=240)
        except threading.BrokenBarrierError:
            raise Lost(tag)
        tags = [g[0] for g in got]
        if len(set(tags)) > 1:
            raise Violation("ranks wait in different collective calls (deadlock): %s" % tags)
        return [g[1] for g in got]

    def run(self, fn):
        """fn() on every rank; the first failure that is not a consequence of another one is re-raised"""
        out, err = [None] * self.size, [None] * self.size

        def body(r):
            self.local.rank = r
            try:
                out[r] = fn()
                self.meet('finish')
            except BaseException as e:
                err[r] = e
                self.bar.abort()

        ts = [threading.Thread(target=body, args=(r,), daemon=True) for r in range(self.size)]
        [t.start() for t in ts]
        [t.join(600) for t in ts]
        real = [e for e in err if e is not None and not isinstance(e, Lost)]
        skip = [e for e in real if isinstance(e, Skip)]
        if skip:
            raise skip[0]
        if real:
            raise real[0]
        if any(err):
            raise Skip("simulated ranks timed out")
        return out


class Base:
    def __getattr__(self, k):
        if k.startswith('__'):
            raise AttributeError(k)
        raise Skip(f"stand-in for {type(self).__name__} does not model {k}")


class Comm(Base):
    def __init__(self, w):
        self.w = w

    def Get_rank(self):
        return self.w.rank

    def Get_size(self):
        return self.w.size

    getRank, getSize = Get_rank, Get_size
    rank, size = property(Get_rank), property(Get_size)

    def Barrier(self):
        self.w.meet('barrier')

    barrier = Barrier

    @staticmethod
    def _fold(vals, op):
        vals = [onp.asarray(v) for v in vals]
        if op in (None, 'SUM'):
            return sum(vals[1:], vals[0])
        return {'MAX': onp.maximum, 'MIN': onp.minimum}[op].reduce(vals)

    def allreduce(self, v, op='SUM'):
        r = self._fold(self.w.meet('allreduce', v), op)
        return r.item() if r.ndim == 0 else r

    def Allreduce(self, a, b, op='SUM'):
        # received over the same order of ranks everywhere
        b[...] = self._fold(self.w.meet('Allreduce', onp.array(a)), op)

    def gather(self, v, root=0):
        r = self.w.meet('gather', v)
        return r if self.w.rank == root else None

    def allgather(self, v):
        return self.w.meet('allgather', v)

    def bcast(self, v, root=0):
        return self.w.meet('bcast', v)[root]


class FakeMPI(Base):
    SUM, MAX, MIN = 'SUM', 'MAX', 'MIN'

    def __init__(self, w):
        self.COMM_WORLD = Comm(w)

    @staticmethod
    def Wtime():
        import time
        return time.perf_counter()


class Plan:
    """a distributed mesh: cells per rank, vertex owners, the global numbering, local numberings"""

    def __init__(self, points, cells, size, rng, owners, kind):
        self.points, self.cells, self.size = points, cells, size
        nc, nv = len(cells), len(points)
        mid = points[cells].mean(1)
        if kind == 'scatter':
            part = rng.integers(0, size, nc)
        else:                                                      # strips, or rings around the centre (ranks without boundary vertices)
            key = mid @ rng.normal(size=2) if kind == 'strips' else onp.abs(mid - .5).max(1)
            part = onp.searchsorted(onp.quantile(key, onp.arange(1, size) / size), key)
        part[rng.permutation(nc)[:size]] = onp.arange(size)        # every rank has at least one cell
        self.part = part
        self.owner = onp.empty(nv, int)
        for v in range(nv):
            rs = onp.unique(part[(cells == v).any(1)])
            self.owner[v] = {'random': rng.choice(rs), 'low': rs.min(), 'high': rs.max()}[owners]
        self.counts = onp.bincount(self.owner, minlength=size)
        self.start = onp.concatenate([[0], onp.cumsum(self.counts)])
        self.gdof = onp.empty(nv, int)
        for r in range(size):
            own = rng.permutation(onp.flatnonzero(self.owner == r))
            self.gdof[own] = self.start[r] + onp.arange(len(own))
        self.lcells, self.lverts, self.lcoord = [], [], []
        for r in range(size):
            c = rng.permutation(onp.flatnonzero(part == r))
            v = rng.permutation(onp.unique(cells[c]))
            self.lcells.append(c)
            self.lverts.append(v)
            self.lcoord.append(rng.permutation(len(v)))            # where each local vertex sits in the coordinate array


class CoordSection(Base):
    def __init__(self, dm):
        self.dm = dm

    def getOffset(self, v):
        return 2 * int(self.dm.plan.lcoord[self.dm.r][v - self.dm.nc])

    def getDof(self, v):
        return 2


class GlobalSection(Base):
    def __init__(self, dm):
        self.dm = dm

    def getOffset(self, v):
        g = self.dm.plan.lverts[self.dm.r][v - self.dm.nc]
        k = int(self.dm.plan.gdof[g])
        return k if self.dm.plan.owner[g] == self.dm.r else -(k + 1)

    def getDof(self, v):
        g = self.dm.plan.lverts[self.dm.r][v - self.dm.nc]
        return 1 if self.dm.plan.owner[g] == self.dm.r else -2


class LocalArray(Base):
    def __init__(self, a):
        self.array = a
        self.array_r = a

    def getArray(self):
        return self.array


class DM(Base):
    def __init__(self, api):
        self.api, self.w = api, api.w
        self.section = None

    def createFromCellList(self, dim, cells, coords, comm=None, interpolate=True):
        self.w.meet('createFromCellList')
        if self.w.rank == 0:
            self.api.given.append((onp.array(coords, float), onp.array(cells, int)))
        return self

    def distribute(self, overlap=0, **k):
        self.w.meet('distribute')
        if overlap:
            raise Skip("overlap")
        plans = self.api.given
        if self.w.rank == 0:
            p, c = plans[-1]
            self.api.plan = Plan(p, c, self.w.size, self.api.rng, self.api.owners, self.api.kind)
        self.w.meet('distributed')
        self.plan, self.r = self.api.plan, self.w.rank
        self.nc, self.nv = len(self.plan.lcells[self.r]), len(self.plan.lverts[self.r])
        self.loc = {int(g): self.nc + i for i, g in enumerate(self.plan.lverts[self.r])}
        es = {}
        self.closures = []
        for c in self.plan.lcells[self.r]:
            v = [self.loc[int(g)] for g in self.plan.cells[c]]
            e = [es.setdefault(frozenset((v[i], v[(i + 1) % 3])), self.nc + self.nv + len(es)) for i in range(3)]
            self.closures.append((e, v))
        self.ne = len(es)

    def setUp(self):
        pass

    def getDimension(self):
        return 2

    def getDepthStratum(self, d):
        n = [self.nc, self.nc + self.nv, self.nc + self.nv + self.ne]
        return {0: (n[0], n[1]), 1: (n[1], n[2]), 2: (0, n[0])}[d]

    def getHeightStratum(self, h):
        return self.getDepthStratum(2 - h)

    def getPointDepth(self, p):
        return 2 if p < self.nc else 0 if p < self.nc + self.nv else 1

    def getTransitiveClosure(self, p, useCone=True):
        e, v = self.closures[p]
        pts = onp.array([p, *e, *v], onp.int32)
        return pts, onp.zeros(len(pts), onp.int32)

    def setLocalSection(self, s):
        self.section = s

    setSection = setLocalSection

    def getGlobalSection(self):
        v0, v1 = self.getDepthStratum(0)
        if self.section is None or self.section.dofs != {v: 1 for v in range(v0, v1)}:
            raise Violation("the section does not put one dof on every local vertex")
        return GlobalSection(self)

    def getCoordinateSection(self):
        return CoordSection(self)

    def getCoordinatesLocal(self):
        a = onp.empty((self.nv, 2))
        a[self.plan.lcoord[self.r]] = self.plan.points[self.plan.lverts[self.r]]
        return LocalArray(a.reshape(-1))

    def createMatrix(self):
        self.w.meet('createMatrix')
        return self.api.track(Mat(self))

    createMat = createMatrix

    def createGlobalVec(self):
        self.w.meet('createGlobalVec')
        return self.api.track(Vec(self))

    createGlobalVector = createGlobalVec


class Section(Base):
    def __init__(self):
        self.dofs = {}

    def create(self, comm=None):
        return self

    def setChart(self, a, b):
        self.chart = (a, b)

    def setDof(self, p, n):
        if not self.chart[0] <= p < self.chart[1]:
            raise Violation("section dof outside of the chart")
        self.dofs[int(p)] = n

    def setUp(self):
        pass


ADD, INSERT = 2, 1


def mode_of(addv):
    return {None: INSERT, False: INSERT, True: ADD}.get(addv, None) or int(addv)


class Dist(Base):
    """values set on this rank wait for the assembly"""

    def __init__(self, dm):
        self.dm, self.w = dm, dm.w
        self.n = len(dm.plan.points)
        self.range = (int(dm.plan.start[dm.r]), int(dm.plan.start[dm.r + 1]))
        self.stash, self.mode, self.assembled = [], None, False
        self.pending = False

    def getOwnershipRange(self):
        return self.range

    def _set(self, entry, addv):
        m = mode_of(addv)
        if self.mode not in (None, m):
            raise Violation("adding and inserting mixed without an assembly in between")
        self.mode = m
        self.assembled = False
        self.stash.append(entry)

    def assemblyBegin(self, *a):
        got = self.w.meet(f'{type(self).__name__}.assemblyBegin', (self.mode, self.stash))
        if len({m for m, _ in got if m}) > 1:
            raise Violation("some ranks add and others insert")
        self.pending = got
        self.stash, self.mode = [], None

    def assemblyEnd(self, *a):
        if self.pending is False:
            raise Violation("assemblyEnd without assemblyBegin")
        for m, entries in self.pending:
            for e in entries:
                self._apply(e, m)
        self.pending, self.assembled = False, True

    def assemble(self, *a):
        self.assemblyBegin()
        self.assemblyEnd()

    def _ready(self, what):
        if self.stash or self.pending is not False or not self.assembled:
            raise Violation("%s on an object that is not assembled" % what)


class Vec(Dist):
    def __init__(self, dm):
        super().__init__(dm)
        self.a = onp.zeros(self.range[1] - self.range[0])
        self.assembled = True

    def getSize(self):
        return self.n

    def getLocalSize(self):
        return len(self.a)

    @property
    def array_r(self):
        v = self.a.view()
        v.flags.writeable = False
        return v

    @property
    def array(self):
        return self.a

    getArray = lambda self: self.a

    def set(self, v):
        self.a[:] = v

    def zeroEntries(self):
        self.a[:] = 0.

    def setValues(self, i, v, addv=None):
        i, v = onp.array(i).reshape(-1), onp.array(v, float).reshape(-1)
        if len(i) != len(v):
            raise Violation("incompatible array sizes: %d indices, %d values" % (len(i), len(v)))
        self._set((i, v), addv)

    def setValue(self, i, v, addv=None):
        self.setValues([i], [v], addv)

    def _apply(self, e, m):
        i, v = e
        k = (i >= self.range[0]) & (i < self.range[1])
        if (i >= self.n).any():
            raise Violation("index outside of the vector")
        if m == ADD:
            onp.add.at(self.a, i[k] - self.range[0], v[k])
        else:
            self.a[i[k] - self.range[0]] = v[k]

    def norm(self, *a):
        self._ready('norm')
        return float(onp.sqrt(sum(self.w.meet('norm', float(self.a @ self.a)))))

    def duplicate(self):
        return self.dm.api.track(Vec(self.dm))

    def copy(self, other=None):
        self._ready('copy')
        if other is None:
            other = self.duplicate()
        other.a[:] = self.a
        return other

    def scale(self, s):
        self.a *= s

    def axpy(self, al, x):
        self._ready('axpy')
        self.a += al * x.a

    def dot(self, x):
        return sum(self.w.meet('dot', float(self.a @ x.a)))


class Mat(Dist):
    class Option:
        pass

    def __init__(self, dm):
        super().__init__(dm)
        self.m = sp.lil_matrix((self.range[1] - self.range[0], self.n))

    def getSize(self):
        return (self.n, self.n)

    def setOption(self, *a):
        pass

    def zeroEntries(self):
        self.m = sp.lil_matrix(self.m.shape)

    def setValues(self, r, c, v, addv=None):
        r, c = onp.array(r).reshape(-1), onp.array(c).reshape(-1)
        v = onp.array(v, float).reshape(-1)
        if len(v) != len(r) * len(c):
            raise Violation("incompatible array sizes: %d x %d, %d values" % (len(r), len(c), len(v)))
        self._set((onp.repeat(r, len(c)), onp.tile(c, len(r)), v), addv)

    def setValue(self, r, c, v, addv=None):
        self.setValues([r], [c], [v], addv)

    def setValuesRCV(self, R, C, V, addv=None):
        R, C, V = onp.atleast_2d(R), onp.atleast_2d(C), onp.atleast_2d(V)
        if not len(R) == len(C) == len(V):
            raise Violation("incompatible array sizes")
        for r, c, v in zip(R, C, V):
            self.setValues(r, c, v, addv)

    def setValuesCSR(self, I, J, V, addv=None):
        I, J, V = onp.array(I), onp.array(J), onp.array(V, float)
        if len(I) != self.range[1] - self.range[0] + 1 or I[0] != 0 or I[-1] != len(J) or len(J) != len(V):
            raise Violation("incompatible CSR arrays")
        self._set((onp.repeat(onp.arange(*self.range), onp.diff(I)), J, V), addv)

    def _apply(self, e, m):
        r, c, v = e
        if (r >= self.n).any() or (c >= self.n).any():
            raise Violation("index outside of the matrix")
        k = (r >= self.range[0]) & (r < self.range[1]) & (c >= 0)
        for i, j, x in zip(r[k] - self.range[0], c[k], v[k]):
            self.m[i, j] = self.m[i, j] + x if m == ADD else x

    def zeroRows(self, rows, diag=1.):
        got = self.w.meet('zeroRows', (onp.array(rows).reshape(-1), diag))
        self._ready('zeroRows')
        for rr, d in got:
            for r in rr:
                if self.range[0] <= r < self.range[1]:
                    self.m[r - self.range[0], :] = 0.
                    self.m[r - self.range[0], r] = d

    def zeroRowsColumns(self, rows, diag=1.):
        got = self.w.meet('zeroRowsColumns', (onp.array(rows).reshape(-1), diag))
        self._ready('zeroRowsColumns')
        for rr, d in got:
            for r in rr:
                self.m[:, r] = 0.
                if self.range[0] <= r < self.range[1]:
                    self.m[r - self.range[0], :] = 0.
                    self.m[r - self.range[0], r] = d

    def full(self):
        self._ready('solve')
        return sp.vstack(self.w.meet('matrix', self.m.tocsr())).tocsc()


class Options(Base):
    def setValue(self, *a):
        pass

    def __setitem__(self, k, v):
        pass


class KSP(Base):
    def __init__(self, api):
        self.api = api
        self.reason = 0

    def create(self, comm=None):
        return self

    def setOperators(self, A, P=None):
        self.A = A

    def _no(self, *a, **k):
        pass

    setOptionsPrefix = setFromOptions = setErrorIfNotConverged = setType = setTolerances = setUp = _no

    def getPC(self):
        return PC()

    def getConvergedReason(self):
        return self.reason

    def getIterationNumber(self):
        return 1

    def solve(self, b, x):
        A = self.A.full()
        b._ready('solve')
        rhs = onp.concatenate(b.w.meet('rhs', onp.array(b.a)))
        sol = spl.spsolve(A, rhs)
        x.a[:] = sol[x.range[0]:x.range[1]]
        x.assembled = True
        self.reason = 2
        if b.w.rank == 0:
            self.api.solves.append((A, rhs, sol))


class PC(Base):
    setType = setFromOptions = KSP._no


class FakePETSc(Base):
    IntType = onp.int32

    def __init__(self, w, rng, owners, kind):
        import petsc4py
        from petsc4py import PETSc as real
        self.w, self.rng, self.owners, self.kind = w, rng, owners, kind
        self.InsertMode = real.InsertMode
        self.given, self.solves, self.plan, self.objs = [], [], None, [[] for _ in range(w.size)]

        class M(Base):
            Option = real.Mat.Option
        self.Mat = M()
        self.COMM_WORLD = Comm(w)

    def track(self, o):
        self.objs[self.w.rank].append(o)
        return o

    def DMPlex(self):
        return DM(self)

    def Section(self):
        return Section()

    def KSP(self):
        return KSP(self)

    def Options(self):
        return Options()
