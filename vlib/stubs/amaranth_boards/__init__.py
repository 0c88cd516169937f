"""Empty stand-in: examples/attosoc.py imports board names it only uses in demo()."""
cmod_s7 = icebreaker = icestick = ice40_hx8k_b_evn = arty_a7 = None
