import sys, numpy as np

from magpie import remap
g=remap.grid2grid1D(np.ones(10),1.,3)
assert np.allclose(g,1.),g
h=remap.grid2grid1D(np.ones(10),1.,5,originout=.05,boxsizeout=.5)
assert np.allclose(h,1.),h
