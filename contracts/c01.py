"""C01: model files"""
from pyvc.runner import Prop
from .io_oracle import SaveLoad
from .model_contracts import *

KINDS = ("coupled", "diagonal")
QUICK = patterns()
CONTRACTS = []
for kind in KINDS:
    CONTRACTS += [RoundTrip(kind, p, p not in QUICK) for p in patterns(True)]
    CONTRACTS += [Save(kind, p) for p in QUICK[:8]] + [Load(kind, p) for p in patterns(True)]
    CONTRACTS += [InPlace(kind, f, "111111") for f in patterns(True)] + [InPlace(kind, "111111", f, f not in QUICK) for f in patterns(True) if f != "111111"]
    CONTRACTS += [InPlace(kind, "101010", "010101"), InPlace(kind, "110001", "011100")]
    CONTRACTS += [Shapes(w, kind, p, None, w == "save" and p == "111111") for w in ("save", "load") for p in ("111111", "110000", "001000", "000101", "000010")] + [InPlaceShapes(kind, p) for p in ("111111", "001000", "100100", "000000")]
    CONTRACTS += [Shapes(w, kind, "110001", (k, r)) for w in ("save", "load") for k in ("E", "w", "G4") for r in (1, -1)]
PROPERTY = Prop("C01", CONTRACTS, [x.label() for x in CONTRACTS], SaveLoad())
