"""C09: sampling density and denominator"""
from .prep_contracts import *
from .pimc_oracle import Density
from pyvc.runner import Prop

PROPERTY = Prop("C09", [ConstantsDiag, Weights, PrepareSampling, DrawSample, DataDraw, Transform, TransformSame, BuildO, BuildOTemp, Denominator, RhoR, RhoROwn],
                [c().label() for c in (PrepareSampling, DrawSample, Transform, TransformSame, RhoR, RhoROwn)], Density())
