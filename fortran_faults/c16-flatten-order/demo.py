import sys, numpy as np

from magpie import remap
f=np.arange(12.).reshape(4,3)
g=remap.grid2grid2D(f,[1.,1.],[4,6])
assert np.allclose(g,np.repeat(f,2,axis=1)),g
