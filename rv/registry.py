import importlib
import os

from .engine import Prop

PROPS = {}
for _name in sorted(os.listdir(os.path.dirname(os.path.abspath(__file__)))):
    if _name.startswith('p_') and _name.endswith('.py'):
        _m = importlib.import_module('rv.' + _name[:-3])
        for _o in vars(_m).values():
            if isinstance(_o, type) and issubclass(_o, Prop) and _o.id:
                PROPS[_o.id] = _o()
