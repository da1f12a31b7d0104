import sys, numpy as np

from magpie import remap
for n in range(2,60):
    for m in range(1,n):
        for o in (0.,.1,.3,-.7):
            g=remap.grid2grid1D(np.ones(n),1.,m,origin=o,originout=o)
            assert np.allclose(g,1.,atol=1e-9),(n,m,o,g)
