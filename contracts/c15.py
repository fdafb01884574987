"""C15: options of the analysis reach the step"""
from vc.api import *
import contracts.srrwiring    # noqa: F401

P = "C15"
