"""Running the command line of the code under test in the current (scratch) directory."""
import os
from ..core import Violation


def argv(args):
    """arguments of BandStructure as command-line options"""
    names = dict(code="-code", fPOS="-fPOS", fWAV="-fWAV", fWFK="-fWFK", prefix="-prefix", Ecut="-Ecut", IBstart="-IBstart",
                 IBend="-IBend", EF="-EF", degen_thresh="-degenThresh", trans_thresh="-trans_thresh")
    out = []
    for k, v in args.items():
        if k == "spinor":
            out += ["-spinor"] if v else []
        elif v is not None:
            out += [names[k], repr(float(v)) if k in ("Ecut", "degen_thresh", "trans_thresh") else str(v)]
    return out


def invoke(args, fail_ok=False):
    """-> stdout; raises the exception of the command"""
    from click.testing import CliRunner
    from irrep.cli import cli
    r = CliRunner().invoke(cli, [str(a) for a in args], catch_exceptions=True)
    if r.exception is not None and not isinstance(r.exception, SystemExit):
        raise r.exception
    if r.exit_code not in (0, None) and not fail_ok:
        raise Violation(f"command line ends with code {r.exit_code}: {r.output[-300:]}")
    return r.output
