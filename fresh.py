"""Load the library under test from its source text, never from cached bytecode.

Cached bytecode is matched by modification second and size only, so a file
changed twice within a second could run as its earlier text.
"""
import importlib.machinery as _m
import sys as _s


class _Loader(_m.SourceFileLoader):
    def get_code(self, fullname):
        path = self.get_filename(fullname)
        return self.source_to_code(self.get_data(path), path)


class _Finder:
    @staticmethod
    def find_spec(name, path=None, target=None):
        if name != "jsonpickle" and not name.startswith("jsonpickle."):
            return None
        for f in _s.meta_path:
            if f is _Finder or not hasattr(f, "find_spec"):
                continue
            spec = f.find_spec(name, path, target)
            if spec is None:
                continue
            if type(spec.loader) is _m.SourceFileLoader:
                spec.loader = _Loader(spec.loader.name, spec.loader.path)
            return spec
        return None


if not any(getattr(f, "__name__", "") == "_Finder" for f in _s.meta_path):
    _s.meta_path.insert(0, _Finder)
