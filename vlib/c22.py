"""C22: see soc.py."""
from soc import check_c22 as check  # noqa: F401
