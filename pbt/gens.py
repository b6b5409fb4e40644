"""Strategies for plain data shared by the property modules."""
from hypothesis import strategies as st

IDENT = st.sampled_from(["a", "b", "c", "dd", "name", "size", "val", "x1", "spec_", "items"])

NASTY = [
    '"', '""', '"""', "'", "'''", "\\", "\\\\", '\\"', "\\n", "\n", "\r", "\r\n", "\t",
    " ", "  lead", "trail  ", "inf", "nan", "-inf", "Infinity", "NaN", "true", "false",
    "null", "None", "1_000", " 12 ", "+5", "0x10", "1e", "--1", "1.2.3", "١٢", "²", "½",
    "${x}", "{}", "[]", "//c", "# c", "a=b", "r\"x\"", "b'x'", "\\x41", "\\u0041", "\\101",
    "\u2028", "\u00a0", "\ufeff", "é", "漢字", "😀", "\x00", "\x7f", "a\\", 'a"', '"a', "a\nb\"c\\",
    '"""\n"""', "line1\n\"quoted\"\nline3", "\\\n", "C:\\temp\\new", "^\\d+$", "1,2", "1 2", "-", ".", "e5",
    "has(x)", "steps.a", "%s", "\x1b[0m", "1u", "1l", "0b1", "1__0", "_1", "1_", "٣.٤", "1e1_0", "infinity", "-nan",
    "3213 ", "\t7", "7\n",
]

NUMERALS = ["0", "1", "-1", "42", "-7", "3.5", "-0.25", "1e3", "2E5", "-1.5e-3", "100000",
            "9007199254740993", "-9007199254740993", "9223372036854775807", "-9223372036854775808", "0.1", "12.50"]

CHARS = st.characters(exclude_categories=("Cs",))
TEXT = st.one_of(
    st.sampled_from(NASTY),
    st.text(alphabet=st.sampled_from(list("ab \\\"'\n\r\t{}[]=/#1.-e_")), max_size=10),
    st.text(alphabet=CHARS, max_size=8),
    st.builds(lambda a, b: a + b, st.sampled_from(NASTY), st.sampled_from(NASTY)),
)

INTS = st.one_of(
    st.integers(-5, 5),
    st.integers(-(2**63), 2**63 - 1),
    st.sampled_from([2**63 - 1, -(2**63), 2**53 + 1, -(2**53) - 1, 2**31, -(2**31), 2**32]),
)
FLOATS = st.one_of(
    st.sampled_from([0.5, -0.5, 1.0, -1.0, 0.1, 1e22, 1e-7, 1.7976931348623157e308, 5e-324, -0.0, 1e16, 123456789.125]),
    st.floats(allow_nan=False, allow_infinity=False, width=64),
)
SCALARS = st.one_of(st.none(), st.booleans(), INTS, FLOATS, TEXT)


def json_values(scalars=SCALARS, keys=None, max_leaves=8):
    keys = keys if keys is not None else st.one_of(IDENT, TEXT)
    return st.recursive(
        scalars,
        lambda kids: st.one_of(
            st.lists(kids, max_size=3),
            st.dictionaries(keys, kids, max_size=3),
        ),
        max_leaves=max_leaves,
    )


# mild values: no nulls, no exotic strings; used as "ordinary data"
WORDS = st.sampled_from(["alpha", "beta", "gamma", "delta", "", "zz top", "A", "x-y", "true", "0"])
MILD_SCALARS = st.one_of(
    st.booleans(), st.integers(-3, 3), st.sampled_from([1.5, -0.5, 0.0, 2.0, 1.0]),
    st.sampled_from(["alpha", "beta", "gamma", "", "zz top", "x-y", "True", "false", "none"]),
)


def mild_values(max_leaves=6, scalars=MILD_SCALARS, keys=IDENT):
    return st.recursive(
        scalars,
        lambda kids: st.one_of(st.lists(kids, max_size=3), st.dictionaries(keys, kids, max_size=3)),
        max_leaves=max_leaves,
    )


def mild_maps(max_leaves=6, min_size=0, max_size=4, scalars=MILD_SCALARS):
    return st.dictionaries(IDENT, mild_values(max_leaves, scalars), min_size=min_size, max_size=max_size)


def histories(op, longest):
    """Lists that are often long but still shrink to a couple of operations."""
    return st.one_of(
        st.lists(op, min_size=1, max_size=longest),
        st.lists(op, min_size=longest // 3, max_size=longest),
        st.lists(op, min_size=2 * longest // 3, max_size=longest),
    )
