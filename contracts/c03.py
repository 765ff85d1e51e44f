from .c02 import *
