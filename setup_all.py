#!/usr/bin/env python3
"""Builds what the checks share; every check rebuilds whatever depends on /repo by itself."""
import time
import ccheck, props, vlib
from check import Run, build_rt, build_rt_san
t = time.time()
run = Run("setup", "quick")
miri, miri_env = props.miri()
vlib.parallel(build_rt, lambda: build_rt(props.UNCHECKED), lambda: props.gen(run, report=False), lambda: vlib.miri_setup(miri, miri_env), ccheck.build_libdrv, ccheck.build_shim)
props.gen(run, report=False, cargo_args=props.UNCHECKED, sub="unchecked")
vlib.parallel(lambda: build_rt_san("address"), lambda: build_rt_san("thread"))
print(f"set up in {time.time() - t:.0f} s")
