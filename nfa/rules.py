"""Registry: property id -> rule functions."""
RULES = {}


def rule(*pids):
    def d(f):
        for p in pids:
            RULES.setdefault(p, []).append(f)
        return f
    return d


from . import rules_core      # noqa: E402,F401
from . import rules_db        # noqa: E402,F401
from . import rules_factory # noqa: E402,F401
from . import rules_misc    # noqa: E402,F401
from . import rules_fv     # noqa: E402,F401
from . import rules_geo       # noqa: F401,E402
from . import rules_bc       # noqa: F401,E402
from . import rules_conc       # noqa: F401,E402
from . import rules_par       # noqa: F401,E402
from . import rules_field       # noqa: F401,E402
from . import rules_dsl       # noqa: F401,E402
from . import rules_la       # noqa: F401,E402
from . import rules_seg       # noqa: F401,E402
from . import rules_sten       # noqa: F401,E402
from . import rules_mesh       # noqa: F401,E402
from . import rules_clone       # noqa: F401,E402
from . import rules_mpi, rules_names, rules_old, rules_parts, rules_host, rules_prim, rules_shared, rules_select, rules_sundials, rules_solvers       # noqa: F401,E402
