"""Runs seeded computations in a process of its own (C18): argv = pickled request."""
import os, pickle, sys, warnings
from vlib import boot

boot.attach(None)
import numpy as np

np.seterr(all="ignore")
warnings.simplefilter("ignore")
from vlib import c18targets as ct

with open(sys.argv[1], "rb") as f:
    names, out, tier, noise = pickle.load(f)
T = ct.targets(tier)
res = {}
for i, n in enumerate(names):
    ct.disturb(noise, i)
    try:
        res[n] = ("ok", T[n][1](None))
    except Exception as e:
        res[n] = ("exc", "%s: %s" % (type(e).__name__, e))
with open(out, "wb") as f:
    pickle.dump(res, f)
os._exit(0)
