"""C21: divisions of the averaging algorithm."""
F = "mixtera/core/algo/loss_avg/loss_avg.py"
C = ["C21"]
V = [
    ("bug", C, F, ("        mask = self.counts > 0\n", "        mask = self.losses > 0\n")),
    ("bug", C, F, ("        mask = self.counts > 0\n", "        mask = self.counts >= 0\n")),
    ("bug", C, F, ("        if total_avg_loss == 0:\n", "        if total_avg_loss is None:\n")),
    ("bug", C, F, ("        if mixture_sum != 0:\n            mixture /= mixture_sum\n", "        mixture /= mixture_sum\n")),
    ("bug", C, F, ("avg_losses[mask] = self.losses[mask] / self.counts[mask]", "avg_losses = self.losses / self.counts")),
    ("ok", [], F, ("        mask = self.counts > 0\n", "        mask = self.counts != 0\n")),
    ("ok", [], F, ("        mask = self.counts > 0\n", "        seen = self.counts > 0\n        mask = seen\n")),
    ("ok", [], F, ("        if mixture_sum != 0:\n            mixture /= mixture_sum\n", "        if mixture_sum > 0:\n            mixture = mixture / mixture_sum\n")),
    ("ok", [], F, ("        if total_avg_loss == 0:\n", "        if not total_avg_loss > 0:\n")),
    ("ok", [], F, ("avg_losses[mask] = self.losses[mask] / self.counts[mask]", "observed_losses = self.losses[mask]\n        observed_counts = self.counts[mask]\n        avg_losses[mask] = observed_losses / observed_counts")),
]
