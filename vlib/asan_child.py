"""Runs C14 histories in an AddressSanitizer process; progress goes to a file."""
import contextlib, io, json, os, sys
from vlib import boot

boot.attach(os.environ["SMTVERIF_EXTDIR"])
import numpy as np

np.seterr(all="ignore")
import warnings

warnings.simplefilter("ignore")
from checks import c14

with open(sys.argv[1]) as f:
    todo = json.load(f)
log = os.open(sys.argv[2], os.O_WRONLY | os.O_APPEND)
for i, h in todo:
    os.write(log, ("b %d\n" % i).encode())
    with contextlib.redirect_stdout(io.StringIO()):
        out, n = c14.history(h)
    os.write(log, ("e %d %d %d\n" % (i, n, len(out))).encode())
os._exit(0)
