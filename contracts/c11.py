"""C11: independence of blocking"""
from .pimc_contracts import *
from .pimc_oracle import Blocking
from pyvc.runner import Prop

PROPERTY = Prop("C11", [BuildO, BuildOTemp, Scaling, Scale, UnScale, Denominator, Diagonalize, Numerator, DrawSample, DataDraw, Transform, TransformSame, RandomR, SaveResults, SaveResultsPM, SaveGR,
                        BlockCompute, BlockComputeOwn, BlockComputePM, BlockComputePMOwn, BlockComputeGR, GRRaw, RhoR, RhoROwn],
                [c().label() for c in (BlockCompute, BlockComputeOwn, BlockComputePM, BlockComputePMOwn, BlockComputeGR, GRRaw, RhoR, RhoROwn)], Blocking())
