"""builds every harness binary once: a check rebuilds what it needs anyway"""
import vlib, sys
try:
    vlib.sh_build(["e2e", "mo", "rot", "permute", "gates", "vo", "expr", "rng", "com"])
except vlib.Broken as e:
    print(e)
    sys.exit(1)
print("harness built")
