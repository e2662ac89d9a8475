"""property id -> function deciding it"""
CHECKS = {}


def check(prop):
    def reg(f):
        CHECKS[prop] = f
        return f
    return reg


import checks_filters  # noqa: E402,F401
import checks_data  # noqa: E402,F401
import checks_purity  # noqa: E402,F401
import checks_projection  # noqa: E402,F401
import checks_weights  # noqa: E402,F401
import checks_mlp  # noqa: E402,F401
import checks_units  # noqa: E402,F401
import checks_causal  # noqa: E402,F401
import checks_symmetry  # noqa: E402,F401
