"""The derivative of a product is x'y + x y'; both changes in the first level, so the second level has their products."""
import sys, numpy as np, roughpy as rp
ctx = rp.get_context(2, 2, rp.DPReal)
s = rp.LieIncrementStream.from_increments(np.array([[1.0, 0.0], [0.0, 1.0]]), indices=np.array([0.0, 1.0]), ctx=ctx)
i, j = rp.RealInterval(0.0, 1.0), rp.RealInterval(1.0, 2.0)
l = rp.Lie([0.0, 1.0], ctx=ctx)
got = s.signature_derivative([(i, l), (j, l)], 3)
want = s.signature_derivative(i, l, 3) * s.signature(j, 3) + s.signature(i, 3) * s.signature_derivative(j, l, 3)
sys.exit(0 if got == want else 1)
