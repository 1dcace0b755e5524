"""A simulated MPI world: one parent, n children, and a generated completion schedule.

Requests follow MPI's rules: a completed request that was handed out becomes inactive, waiting on inactive requests
gives nothing (indices None, as in mpi4py), and the order of the indices of completed requests is arbitrary.
"""
import sys
import types

import numpy as np


class SimError(Exception):
    pass


class Status:
    def __init__(self):
        self.source = self.tag = -1
        self.error = 0

    def Get_source(self):
        return self.source

    def Get_tag(self):
        return self.tag


class Request:
    def __init__(self, world, source, tag):
        self.world, self.source, self.tag = world, source, tag
        self.active = True

    # the single-request interface, so that other ways of polling work too
    def _take(self, status=None):
        msg = self.world._deliver(self, status)
        self.active = False
        return msg

    def test(self, status=None):
        if not self.active:
            return True, None
        if self.world._ready(self):
            return True, self._take(status)
        return False, None

    def wait(self, status=None):
        if not self.active:
            return None
        self.world._block([self])
        while not self.world._ready(self):
            self.world._finish_some()
        return self._take(status)

    @classmethod
    def _some(cls, requests, statuses, block):
        act = [i for i, r in enumerate(requests) if r.active]
        if not act:
            return None, None
        world = requests[act[0]].world
        if block:
            world._block([requests[i] for i in act])
        ready = [i for i in act if requests[i].world._ready(requests[i])]
        order = world.rs.permutation(len(ready))
        ready = [ready[int(k)] for k in order]
        msgs = []
        for k, i in enumerate(ready):
            msgs.append(requests[i]._take(None if statuses is None or k >= len(statuses) else statuses[k]))
        return ready, msgs

    @classmethod
    def testsome(cls, requests, statuses=None):
        return cls._some(requests, statuses, False)

    @classmethod
    def waitsome(cls, requests, statuses=None):
        return cls._some(requests, statuses, True)

    @classmethod
    def waitall(cls, requests, statuses=None):
        out = []
        for k, r in enumerate(requests):
            out.append(r.wait(None if statuses is None or k >= len(statuses) else statuses[k]))
        return out

    @classmethod
    def testall(cls, requests, statuses=None):
        if all((not r.active) or r.world._ready(r) for r in requests):
            return True, cls.waitall(requests, statuses)
        return False, None

    @classmethod
    def waitany(cls, requests, status=None):
        act = [r for r in requests if r.active]
        if not act:
            return -32766, None
        act[0].world._block(act)
        for i, r in enumerate(requests):
            if r.active and r.world._ready(r):
                return i, r._take(status)

    @classmethod
    def testany(cls, requests, status=None):
        for i, r in enumerate(requests):
            if r.active and r.world._ready(r):
                return i, True, r._take(status)
        return -32766, False, None


class World:
    """The communicator seen by the parent.  work(child, task, tag) makes a child's answer."""

    def __init__(self, n, seed, work, eager=0.0):
        self.n = n
        self.rs = np.random.RandomState(seed)
        self.work = work
        self.eager = eager           # chance that a child finishes between two looks at it
        self.inbox = {c: None for c in range(1, n + 1)}     # the task a child works on: (task, tag)
        self.done = {c: None for c in range(1, n + 1)}      # the finished answer: (answer, tag)
        self.killed = {c: 0 for c in range(1, n + 1)}
        self.sent = []
        self.delivered = []

    # --- communicator
    def Get_rank(self):
        return 0

    def Get_size(self):
        return self.n + 1

    rank = property(Get_rank)
    size = property(Get_size)

    def send(self, obj, dest, tag=0):
        if not 1 <= dest <= self.n:
            raise SimError("message to rank %r" % (dest,))
        if self.killed[dest]:
            raise SimError("message to child %d after its shutdown" % dest)
        if obj is None:
            if self.inbox[dest] is not None or self.done[dest] is not None:
                raise SimError("child %d was shut down while it had work outstanding" % dest)
            self.killed[dest] += 1
            return
        if self.inbox[dest] is not None or self.done[dest] is not None:
            raise SimError("child %d got a task while it had one outstanding" % dest)
        self.inbox[dest] = (obj, tag)
        self.sent.append((dest, obj, tag))

    ssend = send

    def isend(self, obj, dest, tag=0):
        self.send(obj, dest, tag)
        r = Request(self, -1, 0)
        r.active = False
        return r

    def irecv(self, buf=None, source=-1, tag=-1):
        return Request(self, source, tag)

    def recv(self, buf=None, source=-1, tag=-1, status=None):
        return Request(self, source, tag).wait(status)

    # --- the children
    def finish(self, child):
        if self.inbox[child] is None:
            return False
        task, tag = self.inbox[child]
        self.inbox[child] = None
        self.done[child] = (self.work(child, task, tag), tag)
        return True

    def working(self):
        return [c for c in self.inbox if self.inbox[c] is not None]

    def finished(self):
        return [c for c in self.done if self.done[c] is not None]

    def drift(self):
        for c in self.working():
            if self.rs.rand() < self.eager:
                self.finish(c)

    def _finish_some(self):
        w = self.working()
        if not w:
            raise SimError("waiting for a message that no child will send")
        k = 1 + self.rs.randint(len(w))
        for c in self.rs.permutation(w)[:k]:
            self.finish(int(c))

    def _match(self, req):
        for c in ([req.source] if req.source > 0 else list(self.done)):
            if self.done.get(c) is not None and (req.tag < 0 or req.tag == self.done[c][1] or self.done[c][1] is None):
                return c
        return None

    def _ready(self, req):
        return self._match(req) is not None

    def _block(self, reqs):
        while not any(self._ready(r) for r in reqs):
            self._finish_some()

    def _deliver(self, req, status):
        c = self._match(req)
        msg, tag = self.done[c]
        self.done[c] = None
        self.delivered.append((c, msg))
        if status is not None:
            status.source, status.tag = c, tag
        return msg


def module(world=None):
    m = types.ModuleType("mpi4py.MPI")
    m.Request, m.Status, m.ANY_TAG, m.ANY_SOURCE, m.COMM_WORLD, m.UNDEFINED = Request, Status, -1, -1, world, -32766
    p = types.ModuleType("mpi4py")
    p.MPI = m
    sys.modules["mpi4py"], sys.modules["mpi4py.MPI"] = p, m
    return m
