import os, sys
import vfpy as vf
def all_():
    a = vf.choose(3); b = 0 if a == 1 else vf.choose(2); c = vf.choose(4); vf.transition(); vf.state(a, b, c); vf.outcome(a + b + c)
def violation():
    a = vf.choose(5); b = vf.choose(5); vf.transition(); vf.check(a != 3 or b != 4, "planted", "a %d b %d" % (a, b))
def crash():
    a = vf.choose(4); b = vf.choose(3); vf.transition()
    if a == 2 and b == 1: os._exit(7)
vf.main([("all", all_), ("violation", violation), ("crash", crash)])
