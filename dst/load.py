"""Import everything once, behind the seams, then run one check."""
import logging
import os
import sys
import warnings


def preload(tmp):
    from . import fakempi
    sys.modules.update(fakempi.make_modules(fakempi.NullSeam(), 0, 1))
    warnings.simplefilter("ignore")
    import numpy            # noqa: F401
    import scipy.optimize   # noqa: F401
    import pandas           # noqa: F401
    import pyarrow.parquet  # noqa: F401
    import bilby
    import joblib           # noqa: F401
    logging.getLogger("bilby").setLevel(logging.ERROR)
    sys.dont_write_bytecode = False
    sys.pycache_prefix = os.path.join(tmp, "pyc")
    import gw_eccentricity
    import gw_eccentricity.postprocess.postprocess_for_bilby  # noqa: F401
    try:
        import gw_eccentricity.postprocess.postprocess_cli  # noqa: F401  (byte code cache only)
    except Exception as e:       # reported by the runs themselves
        print(f"note: importing the command line tool: {e!r}")
    want = os.path.realpath(bootstrap_repo())
    got = os.path.realpath(os.path.dirname(os.path.dirname(gw_eccentricity.__file__)))
    if want != got:
        raise SystemExit(f"HARNESS: gw_eccentricity comes from {got}, not {want}")


def bootstrap_repo():
    from . import bootstrap
    return bootstrap.REPO


def registry():
    from . import checks_cli
    reg = dict(checks_cli.CHECKS)
    for name in ("checks_api", "checks_measure", "checks_io", "checks_diag", "checks_process", "checks_post"):
        try:
            mod = __import__(f"dst.{name}", fromlist=["CHECKS"])
        except ModuleNotFoundError as e:
            if e.name != f"dst.{name}":
                raise
            continue
        reg.update(mod.CHECKS)
    return reg


def main(argv, tmp):
    preload(tmp)
    from . import runner
    pid = argv[0]
    reg = registry()
    if pid == "--self-test":
        return runner.self_test(reg, tmp)
    if pid not in reg:
        print(f"unknown property {pid}; have {sorted(reg)}")
        return 2
    return runner.main(reg[pid](), argv[1:], tmp)
