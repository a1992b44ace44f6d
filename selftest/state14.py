"""C37/C18: redistributing missing samples when no other key has a share of the chunk."""
Q = "mixtera/core/query/query_result.py"
I = " " * 32
J = I + "    "
IF = I + "if not any(mixture[key] for key in remaining_sizes):\n"
COM = J + "# None of the keys that are left (if any) has a share of this chunk,\n" + J + "# i.e., there is no key that can take over the missing samples.\n"
LOGL = J + "logger.debug(\"Not enough data, ending chunk generation\")\n"
CLR = J + "remaining_sizes.clear()\n"
EL = I + "else:\n"
TK = J + "target_keys = sorted(remaining_sizes.keys())\n"
TS = J + "total_mixture_size_remaining = sum(mixture[key] for key in target_keys)\n"
FOR = "for mixture_key in sorted(remaining_sizes.keys()):"
ZERO = """                        if remaining_sizes[mixture_key] == 0:
                            # Requesting zero samples would put an empty range of the key into the chunk,
                            # and the keys of a chunk have to match the keys with a share of it.
                            continue

"""
V = [
    ("bug", ["C37"], Q, [(IF + COM, I + "if not remaining_sizes:\n"), (LOGL + CLR, LOGL)]),
    ("bug", ["C37"], Q, (IF, I + "if not any(mixture.values()):\n")),
    ("bug", ["C37"], Q, (IF, I + "if not any(remaining_sizes.values()):\n")),
    ("bug", ["C37"], Q, (IF, I + "if not any(mixture[key] >= 0 for key in remaining_sizes):\n")),
    ("bug", ["C18"], Q, (LOGL + CLR, LOGL)),
    ("bug", ["C18"], Q, (IF, I + "if len(remaining_sizes) < 2 or not any(mixture[key] for key in remaining_sizes):\n")),
    ("bug", ["C18"], Q, (IF, I + "if not all(mixture[key] for key in remaining_sizes):\n")),
    ("bug", ["C18"], Q, ("if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):", "if all(size == 0 for size in remaining_sizes.values()):")),
    ("bug", ["C18"], Q, ("if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):", "if not any(remaining_sizes.values()):")),
    ("ok", [], Q, (IF, I + "if not any(mixture[key] > 0 for key in remaining_sizes.keys()):\n")),
    ("ok", [], Q, (IF, I + "if all(mixture[key] == 0 for key in remaining_sizes):\n")),
    ("ok", [], Q, (IF, I + "if sum(mixture[key] for key in remaining_sizes) == 0:\n")),
    ("ok", [], Q, [(IF, I + "target_keys = sorted(remaining_sizes.keys())\n" + I + "total_mixture_size_remaining = sum(mixture[key] for key in target_keys)\n" + I + "if total_mixture_size_remaining == 0:\n"),
                   (EL + J + "# Redistribute", EL + J + "# Move"), (TK, ""), (TS, "")]),
    ("ok", [], Q, [(IF, I + "target_keys = [key for key in sorted(remaining_sizes) if mixture[key] > 0]\n" + I + "if not target_keys:\n"), (TK, "")]),
    ("ok", [], Q, [(IF, I + "if not self._can_take_over(mixture, remaining_sizes):\n"),
                   ("    @property\n    def chunk_size(self) -> int:", "    @staticmethod\n    def _can_take_over(shares: dict, left: dict) -> bool:\n        return any(shares[k] for k in left)\n\n    @property\n    def chunk_size(self) -> int:")]),
    ("ok", [], Q, ("if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):", "if len(remaining_sizes) > 0 and not any(remaining_sizes.values()):")),
    ("ok", [], Q, [("if remaining_sizes and all(size == 0 for size in remaining_sizes.values()):\n                    chunk_success = True", "completed = bool(remaining_sizes) and all(size == 0 for size in remaining_sizes.values())\n                if completed:\n                    chunk_success = True")]),
    ("bug", ["C18"], Q, (ZERO, "")),
    ("bug", ["C18"], Q, (ZERO, ZERO.replace("== 0", "< 0"))),
    ("bug", ["C18"], Q, (ZERO, ZERO.replace("remaining_sizes[mixture_key]", "original_sizes[mixture_key]"))),
    ("bug", ["C18"], Q, [(ZERO, ""), (FOR, FOR.replace("sorted(remaining_sizes.keys())", "sorted(k for k, v in remaining_sizes.items() if v >= 0)"))]),
    ("ok", [], Q, (ZERO, ZERO.replace("remaining_sizes[mixture_key] == 0", "not remaining_sizes[mixture_key]"))),
    ("ok", [], Q, (ZERO, ZERO.replace("== 0", "<= 0"))),
    ("ok", [], Q, [(ZERO, ""), ("if mixture_key == component_key:", "if remaining_sizes[mixture_key] > 0 and mixture_key == component_key:")]),
    ("ok", [], Q, [(ZERO, ""), (FOR, FOR.replace("sorted(remaining_sizes.keys())", "sorted(k for k, v in remaining_sizes.items() if v > 0)"))]),
    ("ok", [], Q, [(ZERO, ""), (FOR, FOR.replace("sorted(remaining_sizes.keys())", "[k for k in sorted(remaining_sizes) if remaining_sizes[k] > 0]"))]),
]
