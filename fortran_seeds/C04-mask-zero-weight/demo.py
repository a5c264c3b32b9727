import numpy as np
from pysimulators import PointingMatrix
pm = PointingMatrix.zeros((1, 2, 3), (5,), verbose=False)
pm.index[0] = [[0, 1, 2], [3, -1, -1]]
pm.value[0] = [[1, 0, 2], [1, 0, 0]]
assert pm.get_mask().tolist() == [False, True, False, False, True], pm.get_mask()
