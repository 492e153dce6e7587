from .cprops import C01, C02, C03, C04, C05, C06, C07
from . import xprops
PROPS = {c.__name__: c for c in (C01, C02, C03, C04, C05, C06, C07)}
PROPS.update(xprops.PROPS)
