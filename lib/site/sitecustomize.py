# Loaded by child interpreters (PYTHONPATH): routes `import gemlog` to /repo + the fresh extension build.
import os, sys
_v = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
if os.environ.get('VERIF_EXT'):
    sys.path.insert(0, _v)
    import boot
    sys.path.remove(_v)
    boot.install(os.environ['VERIF_EXT'])
