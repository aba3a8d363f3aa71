#!/usr/bin/env python3
"""check.py <property> [--replay FILE] : decide one property (tier and seed from VERIF_TIER, VERIF_SEED)."""
import sys
sys.dont_write_bytecode = True
sys.path.insert(0, __file__.rsplit("/", 1)[0] + "/harness" if "/" in __file__ else "harness")
import engine
sys.exit(engine.main(sys.argv[1:]))
