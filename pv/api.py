"""Names contract modules use; symbolic ones only exist in the symbolic world."""

import os

from .contract import External, Falsifier, Proof  # noqa: F401

if os.environ.get("PV_WORLD") == "symbolic":
    import z3  # noqa: F401

    from .rt import LoopContract  # noqa: F401
    from .seq import SSeq, SymIterable, slice_indices, range_len  # noqa: F401
    from .sym import *  # noqa: F401,F403
    from .sym import eng, zi, zb, zr, SInt, SBool, SReal, SVal, SStr, U  # noqa: F401
    from .npsym import SArr  # noqa: F401
else:

    class LoopContract:  # declaration only
        def __init__(self, *a, **k):
            pass
