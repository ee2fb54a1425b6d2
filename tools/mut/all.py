#!/usr/bin/env python3-vt
"""All fields of general broadcasts against the reference decoder (experiments only)."""
import os, sys, types
sys.dont_write_bytecode = True
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.dirname(os.path.abspath(__file__)))))
from rv import gen, harness, std
import checks.c16 as base
mod = types.SimpleNamespace(CASES={'quick': 240, 'thorough': 240}, RULE='', REQUIRE={})


def case(ctx):
    w = gen.ALL if ctx.rng.random() < .4 else {ctx.rng.choice(list(gen.ALL)): 1}
    std.run_session(ctx, gen.session(ctx.rng, 900, w), gen.rand_opts(ctx.rng), std.pick_mode(ctx.rng))
    return ctx.result()


mod.case = case
sys.exit(harness.main('C16', mod))
