"""Damaged texts."""
from . import ref

FOREIGN_CHARS = "0OIl +-/=_.,:;!?\t\n\r\0\x7f\u00a0\u00e9\u0660\uff11\uff21\u200b\u0131\u212a\U0001d7ce\ud800"


def substitutions(t):
    return [t[:i] + c + t[i + 1:] for i in range(len(t)) for c in ref.BTC if c != t[i]]


def edits(t, every_insert=True):
    out = [t[:i] + t[i + 1:] for i in range(len(t))]                                     # missing
    out += [t[:i] + c + t[i:] for i in range(len(t) + 1) for c in (ref.BTC if every_insert else "1z")]  # added
    out += [t[:i] + t[i + 1] + t[i] + t[i + 2:] for i in range(len(t) - 1)]              # adjacent swap
    out += [t[:i] + t[j] + t[i + 1:j] + t[i] + t[j + 1:] for i in range(len(t)) for j in range(i + 2, len(t))]  # any swap
    out += [t[:i] + c + t[i + 1:] for i in range(len(t)) for c in FOREIGN_CHARS]         # foreign character for one
    out += [t[:i] + c + t[i:] for i in range(len(t) + 1) for c in FOREIGN_CHARS]         # foreign character added
    out += [t[:i] + t[i].swapcase() + t[i + 1:] for i in range(len(t)) if t[i].swapcase() != t[i]]
    out += [t[:i] for i in range(len(t))] + [t[i:] for i in range(1, len(t))]            # truncated
    out += [t + t, t[::-1], t.upper(), t.lower(), " " + t, t + " ", t + "\n", "1" + t, t + "1", "'" + t + "'", "0x" + t]
    return [m for m in dict.fromkeys(out) if m != t]
