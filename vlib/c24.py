"""C24: see soc.py."""
from soc import check_c24 as check  # noqa: F401
