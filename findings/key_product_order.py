import sys, roughpy as rp
a = rp.TensorKey(1, 2, width=3, depth=4)
b = rp.TensorKey(3, width=3, depth=4)
sys.exit(0 if (a * b).to_letters() == [1, 2, 3] else 1)
