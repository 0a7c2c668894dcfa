"""Shared helpers for the EDK2 build-file parser checks."""

import os

from lib.mc import Ctx  # noqa: F401


def write(path, text):
    os.makedirs(os.path.dirname(path), exist_ok=True)
    with open(path, "w") as f:
        f.write(text)
    return path


def make_ws(ctx, packages=("TestPkg",)):
    ws = ctx.tmp()
    for p in packages:
        write(os.path.join(ws, p, p + ".dec"), "[Defines]\n")
    return ws


def edk2path(ws, pps=()):
    from edk2toollib.uefi.edk2.path_utilities import Edk2Path

    return Edk2Path(ws, list(pps))
