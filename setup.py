import os, sys
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.join(os.path.dirname(os.path.abspath(__file__)), "lib"))
import common

llrl0 = common.build_llrl0()
common.build_llrl1(llrl0)
H = os.path.join(common.VERIF, "harness")
if os.path.isdir(H):
    for n in sorted(os.listdir(H)):
        if os.path.exists(os.path.join(H, n, "Cargo.toml")) and not os.path.exists(os.path.join(H, n, "NO_SETUP")):
            common.build_harness(n)
print("setup done")
