import os, pickle, time


class _World:
    def __init__(self):
        self.n = 0

    rank = property(lambda s: int(os.environ.get("VP_MPI_RANK", 0)))
    size = property(lambda s: int(os.environ.get("VP_MPI_SIZE", 1)))
    Get_rank = lambda s: s.rank
    Get_size = lambda s: s.size

    def _put(self, name, x=None):
        d = os.environ["VP_MPI_DIR"]
        with open(os.path.join(d, ".t%d" % self.rank), "wb") as f:
            pickle.dump(x, f)
        os.replace(os.path.join(d, ".t%d" % self.rank), os.path.join(d, name))

    def _get(self, name):
        p = os.path.join(os.environ["VP_MPI_DIR"], name)
        for _ in range(60000):
            if os.path.exists(p):
                with open(p, "rb") as f:
                    return pickle.load(f)
            time_sleep(.002)
        raise RuntimeError("rank %d waited in vain for %s" % (self.rank, name))

    def bcast(self, x, root=0):
        self.n += 1
        if self.size == 1:
            return x
        if self.rank == root:
            self._put("b%d" % self.n, x)
            return x
        return self._get("b%d" % self.n)

    def Barrier(self):
        self.n += 1
        if self.size == 1:
            return
        self._put("w%d.%d" % (self.n, self.rank))
        for r in range(self.size):
            self._get("w%d.%d" % (self.n, r))


time_sleep = time.sleep
COMM_WORLD = _World()
