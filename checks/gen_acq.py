"""Acquisition models of known coefficients, shared by several checks."""
import numpy as np


class Known:
    """coef[detector, sample, pixel] * gain[detector] * drift[sample]."""

    def __init__(self, c, ndet, nt, npix):
        self.shape = ndet, nt, npix
        self.gain = np.round(c.rng.uniform(0.5, 2, ndet), 3)
        self.drift = np.round(c.rng.uniform(-2, 2, nt), 3)
        self.coef = np.round(c.rng.uniform(-2, 2, (ndet, nt, npix)), 3)
        self.coef[c.rng.random(self.coef.shape) < 0.3] = 0
        self.calls = 0

    def dense(self, idet, isamp, ipix=None):
        m = self.coef[idet][:, isamp] * self.gain[idet, None, None] * self.drift[isamp, None]
        return m if ipix is None else m[:, :, ipix]

    def instrument(self, layout, noise=None):
        import pysimulators as ps
        from pysimulators.operators import ProjectionOperator
        from pysimulators.sparse import FSRMatrix

        known = self

        class Instr(ps.Instrument):
            def get_operator(self, sampling, scene):
                known.calls += 1
                m = known.coef[self.detector.index][:, sampling.index][:, :, scene.index]
                m = m * self.detector.gain[:, None, None] * sampling.drift[:, None]
                shape, n = m.shape[:2], m.shape[2]
                f = FSRMatrix((m.shape[0] * m.shape[1], n), ncolmax=n, dtype=float)
                f.data.index = np.arange(n)
                f.data.value = m.reshape(f.data.shape)
                return ProjectionOperator(f, shapeout=shape)

            def get_noise(self, sampling, out=None, operation=None):
                if noise is None:
                    return ps.Instrument.get_noise(self, sampling, sigma=1, out=out, operation=operation)
                operation(out, noise[self.detector.index][:, sampling.index])
                return out

            def get_invntt_operator(self, sampling):
                from pyoperators import DiagonalOperator

                return DiagonalOperator(noise[self.detector.index][:, sampling.index])

        return Instr(layout)
