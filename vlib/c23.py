"""C23: see soc.py."""
from soc import check_c23 as check  # noqa: F401
