"""Outcome codecs: the specification works with integers, the real models with these values."""
import numbers

UNKNOWN = 99_999_999


def encode(kind, code):
    """specification code -> real outcome"""
    if kind == "int":
        return code
    if kind == "half":
        return code / 2
    if kind == "float":
        return float(code)
    if kind == "str":
        return f"o{code + 500:03d}"
    if kind == "pre":  # names that are prefixes of one another
        return "a" * (code + 1) if 0 <= code < 50 else f"o{code + 500:03d}"
    if kind == "bool":
        return {0: False, 1: True}.get(code, code)
    raise ValueError(kind)


def decode(kind, value):
    if not isinstance(value, (str, int, float)) and hasattr(value, "item"):  # numpy scalars
        value = value.item()
    if kind in ("str", "pre"):
        if not isinstance(value, str):
            return UNKNOWN
        if kind == "pre" and set(value) == {"a"}:
            return len(value) - 1
        if value[:1] == "o" and value[1:].isdigit():
            return int(value[1:]) - 500
        return UNKNOWN
    if isinstance(value, str) or not isinstance(value, numbers.Number):
        return UNKNOWN
    try:
        c = value * 2 if kind == "half" else value
        return int(c) if float(c) == int(c) and abs(c) < 90_000_000 else UNKNOWN
    except (TypeError, ValueError, OverflowError):
        return UNKNOWN
