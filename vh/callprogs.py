"""Small programs with interesting trees of calls."""
from hypothesis import strategies as st

NAMES = ["f", "g", "h"]
LEAVES = ["abs({})", "str({})", "{} + 1", "[{}, 2]", "K().m({})", "len(str({}))",
          "max({}, 3)"]


@st.composite
def call_programs(draw, max_top=3, generators=False):
    """Functions call only previous functions, so that programs end"""
    lines = []
    size = draw(st.integers(1, 3))
    if draw(st.booleans()):
        lines += ["class K:", "    def m(self, x):",
                  "        return x", ""]
        leaves = LEAVES
    else:
        leaves = [x for x in LEAVES if "K" not in x]

    if generators:
        lines += ["def gen(n):", "    for i in range(n):",
                  "        yield abs(i)", "        str(i)",
                  "def rec(n):", "    if n > 0:",
                  "        rec(n - 1)", "        return rec(n - 2)",
                  "    return n", "it = gen(5)"]
        leaves = leaves + [
            "list(gen({}))", "next(it, {})", "next(it, {})", "rec({})",
            "list(map(abs, [{}, 1]))", "(lambda z: abs(z))({})",
            "sorted([{}, 2], key=str)", "[abs(w) for w in [{}, 5]]"]

    def expr(level, var):
        leaf = draw(st.sampled_from(leaves))
        text = leaf.format(*([var] * leaf.count("{}")))
        if level and draw(st.booleans()):
            text = "{}({})".format(
                NAMES[draw(st.integers(0, level - 1))], var)
        return text

    def statements(level, var, indent, count):
        for _ in range(count):
            kind = draw(st.sampled_from(
                ["expr", "expr", "assign", "for", "if", "with", "try"]))
            code = expr(level, var)
            if kind == "expr":
                lines.append(indent + code)
            elif kind == "assign":
                lines.append("{}{} = {}".format(
                    indent, draw(st.sampled_from("ab")), code))
            elif kind == "for":
                lines.append("{}for i in range({}):".format(
                    indent, draw(st.integers(0, 3))))
                lines.append(indent + "    " + code)
            elif kind == "if":
                lines.append("{}if {} != {}:".format(
                    indent, var, draw(st.integers(0, 2))))
                lines.append(indent + "    " + code)
            elif kind == "try":
                lines.append(indent + "try:")
                lines.append(indent + "    " + code)
                lines.append(indent + "    int('x')")
                lines.append(indent + "except ValueError:")
                lines.append(indent + "    pass")
            else:
                lines.append(indent + code)

    for num in range(size):
        lines.append("def {}(x):".format(NAMES[num]))
        statements(num, "x", "    ", draw(st.integers(0, 2)))
        lines.append("    return " + expr(num, "x"))
    lines.append("v = {}".format(draw(st.integers(0, 3))))
    statements(size, "v", "", draw(st.integers(1, max_top)))
    return "\n".join(lines) + "\n"
