import os
import sys
import json
from . import common


def sweep_check(name, **kw):
    def f(rep):
        from . import judges, sweep
        j = getattr(judges, name)()
        opt = dict(total_s=35, flips=8)
        opt.update(kw)
        if rep.thorough:
            opt.update(total_s=600, flips=150, seeds=(1, 2, 3, 4))
        only = os.environ.get("VERIF_ONLY")
        sweep.run_sweep(j, rep, names=only.split(",") if only else None, **opt)
    return f


def kernel_check(mod, pid, **kw):
    def f(rep):
        from . import kernels
        only = os.environ.get("VERIF_KERNEL")
        kernels.run_kernels(rep, "checks." + mod, pid, only=only.split(";") if only else None, **kw)
    return f


def both(*fs):
    def f(rep):
        for g in fs:
            g(rep)
    return f


CHECKS = {
    "C35": kernel_check("k_solve", "C35"),
    "C36": kernel_check("k_solve", "C36"),
    "C31": both(kernel_check("k_io", "C31", total_s=30), sweep_check("Saved", total_s=20, flips=2)),
    "C32": kernel_check("k_io", "C32"),
    "C37": kernel_check("k_export", "C37"),
    "C38": sweep_check("Mirror"),
    "C01": sweep_check("Bounds"),
    "C02": sweep_check("Consistent"),
    "C03": sweep_check("Monotone"),
    "C04": sweep_check("Counter"),
    "C05": sweep_check("Determinism"),
    "C06": sweep_check("Crash"),
    "C07": sweep_check("Starting"),
    "C08": kernel_check("k_params", "C08", total_s=90),
    "C09": sweep_check("PopSize"),
    "C10": sweep_check("Parallel"),
    "C11": kernel_check("k_space", "C11"),
    "C12": kernel_check("k_space", "C12"),
    "C13": kernel_check("k_space", "C13"),
    "C14": kernel_check("k_space", "C14"),
    "C15": kernel_check("k_space", "C15"),
    "C25": kernel_check("k_tools", "C25"),
    "C26": kernel_check("k_tools", "C26"),
    "C27": kernel_check("k_tools", "C27"),
    "C33": both(kernel_check("k_tools", "C33"), sweep_check("Untouched", total_s=20, flips=4)),
    "C34": sweep_check("Mixed"),
    "C30": kernel_check("k_core", "C30"),
    "C29": kernel_check("k_core", "C29"),
    "C28": kernel_check("k_core", "C28"),
    "C24": kernel_check("k_core", "C24"),
    "C23": kernel_check("k_core", "C23"),
    "C22": kernel_check("k_core", "C22"),
    "C21": kernel_check("k_core", "C21"),
    "C20": kernel_check("k_core", "C20"),
    "C19": kernel_check("k_core", "C19"),
    "C18": kernel_check("k_core", "C18"),
    "C17": kernel_check("k_core", "C17"),
    "C16": kernel_check("k_core", "C16"),
}


def main(argv):
    pid = argv[0]
    from symx import patch
    patch.load()
    rep = common.Report(pid)
    CHECKS[pid](rep)
    return rep.finish()
