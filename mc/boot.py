"""Environment bootstrap: run under the repository's interpreter, with a fixed hash
seed and single-threaded maths, importing the code from REPO's working tree."""
import os
import sys

REPO = os.environ.get("MC_REPO", "/repo")
PY = "/opt/venv/bin/python"
VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))

ENV = {
    "PYTHONDONTWRITEBYTECODE": "1",
    "PYTHONHASHSEED": "0",
    "MPLBACKEND": "Agg",
    "OPENBLAS_NUM_THREADS": "1",
    "OMP_NUM_THREADS": "1",
    "LANG": "C.UTF-8",
}


def ensure():
    """Re-executes the current command under PY with ENV, once."""
    if os.environ.get("MC_BOOTED") != "1":
        env = dict(os.environ)
        env.update(ENV)
        env["MC_BOOTED"] = "1"
        for k in ("PYTHONPATH", "PYTHONHOME"):
            env.pop(k, None)
        # -X frozen_modules default; -B: never write bytecode into /repo
        os.execve(PY, [PY, "-B"] + sys.argv, env)
    if REPO not in sys.path:
        sys.path.insert(0, REPO)
    # stale bytecode of a previous build must never be used
    sys.dont_write_bytecode = True
    from importlib.machinery import FileFinder, SourceFileLoader
    root = os.path.realpath(REPO)

    class FreshLoader(SourceFileLoader):
        def path_stats(self, path):
            raise OSError("bytecode of the code under test is not read")

    def hook(path):
        real = os.path.realpath(path or ".")
        if real != root and not real.startswith(root + os.sep):
            raise ImportError("not the code under test")
        return FileFinder(path, (FreshLoader, [".py"]))

    if not any(getattr(h, "__name__", "") == "fresh_repo_hook" for h in sys.path_hooks):
        hook.__name__ = "fresh_repo_hook"
        sys.path_hooks.insert(0, hook)
        sys.path_importer_cache.clear()


def quiet():
    """Imports prodsys and silences progress bars and warnings."""
    import logging
    import warnings

    warnings.simplefilter("ignore")
    cwd = os.getcwd()
    os.chdir(REPO)  # prodsys reads pyproject.toml relative to the cwd
    try:
        import prodsys  # noqa
        from prodsys.simulation import sim
        from prodsys.util import runner
    finally:
        os.chdir(cwd)
    real = os.path.realpath(prodsys.__file__)
    if not real.startswith(os.path.realpath(REPO) + os.sep):
        raise SystemExit(f"harness error: prodsys imported from {real}")
    sim.VERBOSE = 0
    runner.VERBOSE = 0
    logging.disable(logging.CRITICAL)
    fast_adapters()
    return prodsys


def fast_adapters():
    """Memoises pydantic TypeAdapter construction in prodsys' factories.

    A TypeAdapter is a pure function of its type; building one costs ~30 ms and the
    simulator builds several per resource on every initialisation."""
    import pydantic

    real = pydantic.TypeAdapter
    cache = {}

    def cached(tp, *a, **k):
        if a or k:
            return real(tp, *a, **k)
        try:
            key = (tp if isinstance(tp, type) else repr(tp))
        except Exception:
            return real(tp)
        if key not in cache:
            cache[key] = real(tp)
        return cache[key]

    for name, mod in list(sys.modules.items()):
        if name.startswith("prodsys.") and mod is not None and getattr(mod, "TypeAdapter", None) is real:
            mod.TypeAdapter = cached
