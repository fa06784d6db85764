"""Small helpers shared by property modules."""
from lib import *


def set_uptr(S, t, path, p):
    for sub in ('.t', '.ptr', '', '._M_t', '.m_ptr', '.data'):
        try:
            S.set(t, path + sub, p)
            return
        except Exception:
            pass
    raise KeyError(path)
