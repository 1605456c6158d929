"""opaque objects given to the real code: an attribute the contract does not give makes the unit undecided (never a violation)"""
import sys
class Duck:
    optional = ("sublang", "merge_prev", "extra_children", "extra_i", "placeholder_name", "var_kind", "extra_names")
    def __getattr__(m, n):
        if n.startswith("__") or n.startswith("pv_") or n in type(m).optional: raise AttributeError(n)
        sym = sys.modules.get("pyver.sym")
        if sym is not None and sym.ENG is not None: raise sym.Unsupported(f"attribute '{n}' of an opaque {type(m).__name__}")
        from pyver.ctx import Skip
        raise Skip()
