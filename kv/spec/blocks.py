"""All block cipher specifications: name -> f(key bytes, rounds, tweak bytes, plaintext bytes)."""
from .blocks_arx import SPECS as _arx
from .blocks_tab import SPECS as _tab

SPECS = dict(_arx)
SPECS.update(_tab)
