"""C03: decoupled models and re-weighting"""
from pyvc.runner import Prop
from .io_oracle import Decouple
from .model_contracts import *

QUICK = patterns()
CONTRACTS = [Decoupled("remove_coupling_from_model", p, p not in QUICK) for p in patterns(True)]
CONTRACTS += [Decoupled(w, p, p not in QUICK[:8]) for w in ("create_harmonic_model", "create_basic_diagonal_model") for p in QUICK]
CONTRACTS += [FillOffdiagonal(p, p not in QUICK) for p in patterns(True)]
CONTRACTS += [SinglePoint(r, v, w, w != "single" and v != "111000") for w in ("single", "recalculate") for r in ("111000", "110000", "011000", "010000") for v in ("111000", "110000", "011000", "010000")]
CONTRACTS += [SinglePoint(r, v, w, w != "single" and r != "110101") for w in ("single", "recalculate") for r, v in (("111100", "111000"), ("111010", "111000"), ("111001", "111000"), ("111000", "111100"), ("111000", "111010"), ("111000", "111001"), ("110101", "111010"))]
PROPERTY = Prop("C03", CONTRACTS, [x.label() for x in CONTRACTS], Decouple())
