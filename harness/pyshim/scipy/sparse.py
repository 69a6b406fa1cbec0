"""Stand-in for scipy.sparse: the matrix type that pybind11 makes and reads."""


class csc_matrix:
    def __init__(self, arg, shape):
        self.data, self.indices, self.indptr = arg
        self.shape = tuple(shape)

    @property
    def nnz(self):
        return len(self.data)

    def entries(self):
        d, i, p = self.data.tolist(), self.indices.tolist(), self.indptr.tolist()
        return [(i[k], c, d[k]) for c in range(self.shape[1]) for k in range(p[c], p[c + 1])]
