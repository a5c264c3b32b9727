import numpy as np
from pysimulators import ConvolutionTruncatedExponentialOperator
op = ConvolutionTruncatedExponentialOperator(2.)
out = np.zeros(1)
op.T(np.array([3.]), out)
assert abs(out[0] - 3) < 1e-12, out
