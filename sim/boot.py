"""Start-up shared by every process that runs pyMARS code under the simulator."""

import os
import sys


def boot(home):
    """Import Cantera and pyMARS with the seams in place; ``home`` becomes the cwd."""
    os.makedirs(home, exist_ok=True)
    os.chdir(home)
    sys.dont_write_bytecode = True
    sys.path.insert(0, os.environ.get("PYMARS_SRC", "/repo/src"))
    import cantera  # noqa: F401
    import h5py  # noqa: F401
    import networkx  # noqa: F401
    import scipy.optimize  # noqa: F401

    from . import proc, simpool, world

    proc.init()
    world.install()
    import pymars  # noqa: F401
    import pymars.drg  # noqa: F401
    import pymars.drgep  # noqa: F401
    import pymars.pfa  # noqa: F401
    import pymars.pymars  # noqa: F401
    import pymars.reduce_model  # noqa: F401
    import pymars.sampling  # noqa: F401
    import pymars.sensitivity_analysis  # noqa: F401
    import pymars.simulation  # noqa: F401
    import pymars.soln2yaml  # noqa: F401
    import pymars.tools  # noqa: F401

    src = os.path.realpath(os.path.dirname(pymars.__file__))
    want = os.path.realpath(os.path.join(os.environ.get("PYMARS_SRC", "/repo/src"), "pymars"))
    if src != want:
        raise RuntimeError(f"wrong pymars imported: {src} (wanted {want})")
    world.install_monitor()
    import logging

    logging.raiseExceptions = False
    import warnings

    warnings.simplefilter("ignore")
    import numpy as np

    np.seterr(all="ignore")
    # numbers the first use of every lazily-loaded library path before any run is forked
    _warm()
    simpool.start_nursery(proc.ARENA)


def _warm():
    import cantera as ct

    g = ct.Solution("h2o2.yaml")
    g.write_yaml()
    r = ct.IdealGasMoleReactor(g, clone=False)
    n = ct.ReactorNet([r])
    n.preconditioner = ct.AdaptivePreconditioner()
    import h5py

    with h5py.File("warm.h5", "w") as f:
        f.create_dataset("x", data=[1.0])
    os.remove("warm.h5")
