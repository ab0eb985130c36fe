"""C02: validation, symmetry and equality of models"""
from pyvc.runner import Prop
from .io_oracle import Validate
from .model_contracts import *

QUICK = patterns()
CONTRACTS = []
for kind in ("coupled", "diagonal"):
    CONTRACTS += [Shapes("verify", kind, p) for p in patterns(True)] + [Undimensioned(kind, x) for x in ("A", "N", "AN")]
    CONTRACTS += [Shapes("verify", kind, "111111", (k, r)) for k in KEYS for r in (1, 2, -1) if r > -len(shape(k, 1, 1, kind == "diagonal"))]
    CONTRACTS += [SameShapes(kind, i) for i in (0, 1)]
    CONTRACTS += [Same(kind, p, q, p not in QUICK) for p in patterns(True) for q in sorted({p, complement(p), "111111"})]
CONTRACTS += [SymmetricSurfaces(p) for p in patterns(True)] + [SymmetricModes(p) for p in patterns(True)]
PROPERTY = Prop("C02", CONTRACTS, [x.label() for x in CONTRACTS], Validate())
