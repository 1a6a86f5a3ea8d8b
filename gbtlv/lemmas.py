def status(tier, log): return None
