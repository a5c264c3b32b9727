import numpy as np
from pysimulators.sparse import FSRRotation3dMatrix
m = FSRRotation3dMatrix((6, 9), ncolmax=2, dtype=np.float64, dtype_index=np.int32)
m.data.index[...] = [[0, 1], [2, 1]]
m.data.r11[...] = [[0, 1], [1, 1]]
m.data.r22[...] = 2
m.data.r32[...] = 3
d = np.zeros((6, 9))
for i in range(2):
    for k in range(2):
        j = m.data.index[i, k]
        e = m.data[i, k]
        d[3*i:3*i+3, 3*j:3*j+3] += [[e.r11, 0, 0], [0, e.r22, -e.r32], [0, e.r32, e.r22]]
x = np.arange(1., 10)
np.testing.assert_allclose(m * x, d @ x)
