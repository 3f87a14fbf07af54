"""Imports the package under test from /repo, single-threaded, with controlled randomness."""
import os, sys
for k, v in dict(TF_CPP_MIN_LOG_LEVEL="3", CUDA_VISIBLE_DEVICES="", MPLBACKEND="Agg", TF_NUM_INTRAOP_THREADS="1",
                 TF_NUM_INTEROP_THREADS="1", OMP_NUM_THREADS="1", TF_ENABLE_ONEDNN_OPTS="0").items():
    os.environ.setdefault(k, v)
sys.dont_write_bytecode = True
import numpy as np
import tensorflow as tf
tf.get_logger().setLevel("ERROR")
from . import rng as _rng
import sionna.phy as _sp
_rng.install()
from sionna.phy.channel import tr38811 as ntn
from sionna.phy.channel.tr38811 import utils as ntnu
assert os.path.realpath(ntn.__file__) == "/repo/OpenNTN/__init__.py", ntn.__file__
RNG = _rng.RNG
