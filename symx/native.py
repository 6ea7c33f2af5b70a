"""Imports the repository's package untouched (replay)."""
import importlib.abc
import importlib.machinery
import os
import sys

REPO = os.environ.get("VERIF_REPO", "/repo")


class NativeFinder(importlib.abc.MetaPathFinder):
    def find_spec(self, name, path, target=None):
        if name == "cocotbext":
            spec = importlib.machinery.ModuleSpec(name, None, is_package=True)
            spec.submodule_search_locations = [os.path.join(REPO, "cocotbext")]
            return spec
        return None


def install():
    sys.dont_write_bytecode = True
    sys.meta_path.insert(0, NativeFinder())
