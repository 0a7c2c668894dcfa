"""Sizes that are tried exhaustively: every small one, and the neighbours of the limits code tends to have."""

EDGES = [63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257]
FAR = [300, 499, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025]


def counts(tier, cap=300, low=0, small=None):
    """All sizes up to a small one (24 or 72), then the edges up to `cap`."""
    n = small or (24 if tier == "quick" else 72)
    seen = set(range(low, min(n, cap) + 1)) | {x for x in EDGES + FAR + [2000, 2048, 4095, 4096, 4097] if low <= x <= cap}
    return sorted(seen)
