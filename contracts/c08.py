"""C08: preparing a model"""
from .prep_contracts import *
from .stats_contracts import Beta, TfromBeta
from .data_contracts import Preprocess, PreprocessOther, PreprocessPM
from .pimc_oracle import Preparation
from pyvc.runner import Prop

PROPERTY = Prop("C08", [Constants, ConstantsDiag, Weights, Beta, TfromBeta, Prepare, PreparePM, PrepareSampling, Preprocess, PreprocessOther, PreprocessPM],
                ["ModelVibronic.precompute", "ModelVibronicPM.precompute", "ModelSampling.precompute"], Preparation())
