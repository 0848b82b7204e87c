"""P10"""
from dv.spec import *
from dv.elfspec import *
import specs.P11
