"""Installs the extension built from the current C++ sources as coniii.samplers_ext (instead of the one lying in the tree)."""
import importlib.util
import os
import sys

p = os.environ['CONIII_EXT']
spec = importlib.util.spec_from_file_location('coniii.samplers_ext', p)


class Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name == 'coniii.samplers_ext':
            return importlib.util.spec_from_file_location(name, p)
        return None


sys.meta_path.insert(0, Finder)
