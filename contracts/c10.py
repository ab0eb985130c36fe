"""C10: numerator"""
from .pimc_contracts import *
from .pimc_oracle import Numerators
from pyvc.runner import Prop

PROPERTY = Prop("C10", [BuildO, BuildOTemp, Scaling, Scale, Denominator, Diagonalize, Numerator, DrawSample, DataDraw, Transform, TransformSame, RandomR, SaveResults, SaveResultsPM, SaveGR,
                        BlockCompute, BlockComputeOwn, BlockComputePM, BlockComputePMOwn, BlockComputeGR, GRRaw],
                [c().label() for c in (BlockCompute, BlockComputeOwn, BlockComputePM, BlockComputePMOwn, BlockComputeGR, GRRaw)], Numerators())
