"""Tyre property files: whatever surrounds the entries - comments with any text, sections, blanks, tabs, quotes, number
formats, line ends - reading a file yields the values written in it and nothing else."""
import os
import shutil
import tempfile

from lumos.models.tires.utils import create_params_from_tir_file, read_tir_file

BOUNDS = ("files of 1 line with every combination of the listed spacings, number formats and comments, and of up to 3 (thorough: 4) "
          "lines with every sequence of line kinds; keys and numbers from the lists below, all as symbolic choices")

NUMBERS = (("1", 1.0), ("-0.25", -0.25), ("+3.5", 3.5), (".5", 0.5), ("2.", 2.0), ("1e-3", 1e-3), ("-4.5E+02", -450.0), ("0", 0.0))
SPACES = ("", " ", "    ", "\t", " \t ")
COMMENTS = ("", "$plain", "$ a = b", "$ 3 = 4", "$ = 7", "$x$y=2", "$[NAME] 5", "$'quoted = 1'")
# kinds of lines which are no numeric entries
OTHERS = ("", "   ", "\t", "[SECTION]", "[SECTION]  $ note", "[SECTION] $ 5 = five", "$ only a comment", "$ KEY9 = 9", "$8 = 9", "$-----units",
          "UNIT = 'meter'", "UNIT ='a = 3' $x", "SIDE = left", "EMPTY =", "EMPTY = $ 4", "no entry at all", "{table 1 2 3}")
EPS = ("epsilonv", "epsilonx", "epsilonk", "epsilony")


def _read(ctx, text, f=read_tir_file):
    d = tempfile.mkdtemp(prefix="symx")
    try:
        path = os.path.join(d, "t.tir")
        with open(path, "w", newline="") as fh:
            fh.write(text)
        return f(path)
    finally:
        shutil.rmtree(d, ignore_errors=True)


def _same(ctx, tag, got, want):
    ctx.check(tag + ":keys", set(got) == set(want), f"{sorted(got)} for {sorted(want)}")
    for k, v in want.items():
        ctx.check(tag + ":is-a-number", type(got[k]) is float)
        ctx.check(tag + ":value", got[k] == v, f"{k}: {got[k]} for {v}")


def entry(ctx, end):
    b, c = (ctx.choice(n, SPACES) for n in ("left", "right"))
    a = ctx.choice("before", ("", "\t "))
    num, v = ctx.choice("number", NUMBERS)
    com = ctx.choice("comment", COMMENTS)
    gap = ctx.choice("gap", (" ", "\t") if b else ("", " "))
    got = _read(ctx, f"{a}KEY1{b}={c}{num}{gap}{com}{end}")
    _same(ctx, "entry", got, {"KEY1": v})


def lines(ctx, n, end, last, part=None):
    text, want = [], {}
    for i in range(n):
        kinds = list(range(len(OTHERS) + 3))
        k = part if i == 0 and part is not None else ctx.choice(f"line{i}", kinds)
        if k < len(OTHERS):
            text.append(OTHERS[k])
            continue
        num, v = NUMBERS[(k + i) % len(NUMBERS)]
        key = ("KEY1", f"K_{i}", "key1")[k - len(OTHERS)]  # the same key again: the last one counts
        text.append(f"{key}\t= {num} {COMMENTS[(k + 2 * i) % len(COMMENTS)]}")
        want[key] = v
    got = _read(ctx, end.join(text) + (end if last else ""))
    _same(ctx, "file", got, want)


def augmented(ctx):
    """the parameters made from a file are those of the file and the four regularisations, which the file does not set"""
    n = ctx.choice("entries", (0, 1, 2))
    text, want = "[S]\n", {}
    for i in range(n):
        num, v = ctx.choice(f"number{i}", NUMBERS)
        key = ctx.choice(f"key{i}", ("KEY1", "KEY2", "LFZO"))
        text += f"{key} = {num} $ e = 1\n"
        want[key] = v
    got = _read(ctx, text, create_params_from_tir_file)
    ctx.check("regularisations", all(0 < got[e] < 0.1 for e in EPS))
    _same(ctx, "augmented", {k: v for k, v in got.items() if k not in EPS}, want)


def tasks(tier):
    th = tier == "thorough"
    out = [dict(name="augmented", harness="augmented", params={})]
    for e, end in (("lf", "\n"), ("crlf", "\r\n"), ("none", "")):
        out.append(dict(name="entry-" + e, harness="entry", params=dict(end=end), cost=20, opts=dict(max_paths=60000)))
    for e, end in (("lf", "\n"), ("crlf", "\r\n")):
        for n in (1, 2) + ((3,) if th or e == "lf" else ()) + ((4,) if th and e == "lf" else ()):
            for last in (True, False):
                for part in range(len(OTHERS) + 3) if n > 2 else (None,):
                    if n > 2 and (last or part % 2) and not th:
                        continue
                    out.append(dict(name=f"lines-{e}-{n}-{last}" + ("" if part is None else f"-{part}"), harness="lines", cost=n * n,
                                    params=dict(n=n, end=end, last=last, part=part), opts=dict(max_paths=60000)))
    return out
