"""A worker in its own interpreter: fleetnode.py FD BOSS."""
import os
import sys
import warnings

sys.path[:0] = [os.environ['DST_VERIF']]
warnings.simplefilter('ignore')
from dst import fleet   # noqa: E402

fleet.Worker(int(sys.argv[1]), int(sys.argv[2])).serve()
