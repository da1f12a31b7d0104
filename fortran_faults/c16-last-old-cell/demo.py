import sys, numpy as np

from magpie import remap
bad=0
big=np.full(64,1e30)
for i in range(2000):
    f=big[:16].copy()
    f[:]=1.; 
    a=np.ones(16); b=np.full(16,7.)
    g=remap.grid2grid1D(a,1.,3,originout=.5,boxsizeout=1.5)
    bad+= not np.allclose(g,[1.,0.,0.])
# reads past the end on a padded buffer: the value one past the end must not matter
from magpie import src
pad=np.ones(17); pad[16]=1e12
g=src.remap_1d_grid2grid(x1min=0.,x1max=1.,grid1=16,x2min=.5,x2max=2.,grid2=3,pixlen=src.get_remap_pix_len(x1min=0.,x1max=1.,grid1=16,x2min=.5,x2max=2.,grid2=3),f1=pad[:16])
bad+= not np.allclose(g,[1.,0.,0.])
assert bad==0,(bad,g)
