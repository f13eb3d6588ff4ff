"""Import the libraries before any process is forked."""


def load(extra=()):
    import importlib
    for m in ('numpy', 'numpy.lib.format', 'numba', 'psutil', 'scipy.sparse',
              'scipy.sparse.linalg', 'scipy.linalg', 'scipy.spatial.distance',
              'smtplib', 'ssl', 'socket', 'zipfile', 'zlib', 'glob', 'datetime',
              'textwrap', 'email', 'subprocess', 'shutil', 'tempfile') + tuple(extra):
        try:
            importlib.import_module(m)
        except ImportError:
            pass
