"""C22: the benchmark report tells what the benchmark files say."""

import collections
import importlib.util
import json
import os
import pathlib
import sys
import tempfile

from pbt.props.common import *

RULE = ("Hypothesis draws sets of benchmark reports (groups, cases which share titles, "
        "solvers, ties, zero and repeated medians, missing metadata), split in one to three "
        "files, and documents (any characters, with none, one or several previous sections, "
        "lone and swapped markers), then updates the document one to three times; non-trivial when "
        "a group has two benchmarks of a case, or the document has a marker")
ASSUMPTIONS = ["names of groups, cases and solvers have no table separators nor line breaks"]

SOLV = ALL + ["my_solver", "x"]


def shards(tier):
    k = 1 if tier == "quick" else 30
    return [dict(name=f"report{i}", n=1500 * k, jit=False, cost=1) for i in ("", "-2", "-3", "-4")]


GROUPS = ["zero-rev-nominal", "zero-rev-general", "zero-rev-hyperbolic", "multi-rev-m1",
          "multi-rev-hard", "robust-zero-rev", "new-group", "other"]
NAMES = ["battin-book", "curtiss-book", "vallado-book", "gmat-prograde", "gmat-retrograde",
         "der-article-i-prograde-low", "der-article-i-retrograde-high", "prograde-high",
         "der-article-ii-prograde-high", "prograde-low", "retrograde-high", "m1-prograde-high",
         "m1-prograde-low", "m2-prograde-low", "near-tangent-prograde-high", "my-own-case", "plain"]


@st.composite
def time_s(draw):
    k = draw(st.sampled_from("guusz"))
    if k == "s":
        return draw(st.sampled_from([1e-6, 2e-6, 1e-5, 1e-4, 0.5e-6]))
    if k == "z":
        return draw(st.sampled_from([0.0, 1e-9, 1e-6, 10.0]))
    return 10.0 ** draw(st.floats(-7, -1))


@st.composite
def document(draw, mod_markers):
    s, e = mod_markers
    piece = st.one_of(
        st.text(max_size=12), st.sampled_from(["\n", "\n\n", " ", "# Title\n", "\\1 \\g<0> $1\n", "\r\n",
                                               "## Performance comparison\n", "é µ ∂\n", "text"]))
    def blob():
        # no lone surrogates: they cannot be encoded
        return "".join(draw(st.lists(piece, max_size=4))).encode("utf-8", "ignore").decode()
    k = draw(st.sampled_from("nnoootmlr"))
    if k == "n":
        return blob()
    if k == "o":
        return blob() + s + blob() + e + blob()
    if k == "t":
        return blob() + s + blob() + e + blob() + s + blob() + e + blob()
    if k == "m":
        return blob() + s + blob()
    if k == "l":
        return blob() + e + blob()
    return blob() + e + blob() + s + blob()


def strategy(shard):
    @st.composite
    def s(draw):
        out = []
        for _ in range(draw(st.integers(1, 3))):
            bs = []
            for _ in range(draw(st.integers(0, 8))):
                solver = draw(st.sampled_from(SOLV[:3] if draw(st.booleans()) else SOLV))
                name = draw(st.sampled_from(NAMES[:4] if draw(st.booleans()) else NAMES))
                med = draw(time_s())
                bs.append({
                    "group": draw(st.sampled_from(GROUPS[:2] if draw(st.booleans()) else GROUPS)),
                    "params": {
                        "solver": f"<function {solver} at 0x7f{draw(st.integers(0, 99)):02d}>"
                        if draw(st.booleans()) else solver,
                        "case": {"name": name, "M": draw(st.sampled_from([0, 0, 1, 2])),
                                 "is_prograde": draw(st.booleans()),
                                 "is_low_path": draw(st.booleans())}},
                    "stats": {"median": med, "mean": draw(time_s()), "iqr": draw(time_s()),
                              "rounds": draw(st.integers(1, 99999))}})
            r = {"benchmarks": bs}
            k = draw(st.integers(0, 3))
            if k:
                r["machine_info"] = [{}, {"cpu": {}}, {
                    "cpu": {"brand_raw": "CPU \\1"}, "python_version": "3.12", "system": "Linux"}][k - 1]
            if draw(st.booleans()):
                r["commit_info"] = {"id": draw(st.sampled_from(["0123456789abcdef0123", "abc"]))}
            out.append(r)
        return {"reports": out, "doc": draw(document(MARKERS)), "times": draw(st.integers(1, 3))}

    return s()


MARKERS = ("<!-- performance-comparison:start -->", "<!-- performance-comparison:end -->")
MOD = []


def module():
    if not MOD:
        path = os.path.join(os.environ.get("PBT_REPO", "/repo"), "scripts/generate_benchmark_report.py")
        spec = importlib.util.spec_from_file_location("generate_benchmark_report", path)
        m = importlib.util.module_from_spec(spec)
        spec.loader.exec_module(m)
        MOD.append(m)
    return MOD[0]


def parse(section):
    """{(group title, scenario): [cells of each row]} of a section."""
    out = collections.OrderedDict()
    group = scenario = None
    for line in section.split("\n"):
        if line.startswith("### "):
            group, scenario = line[4:], None
        elif line.startswith("#### "):
            scenario = line[5:]
            if (group, scenario) in out:
                raise Violation(f"scenario {scenario!r} of group {group!r} is there twice")
            out[group, scenario] = []
        elif line.startswith("|") and not line.startswith(("| Rank", "|--")):
            out[group, scenario].append([c.strip() for c in line.strip("|").split("|")])
    return out


def expected(m, reports):
    """{(group title, scenario): [(row without rank, allowed ranks)]}."""
    cases = collections.defaultdict(list)
    for r in reports:
        for b in r["benchmarks"]:
            c = b["params"]["case"]
            cases[b["group"], c["name"], c["M"], c["is_prograde"], c["is_low_path"]].append(b)
    out = collections.defaultdict(list)
    for (g, name, M, pro, low), bs in cases.items():
        meds = [b["stats"]["median"] for b in bs]
        title = m.CASE_TITLE_OVERRIDES.get(name, name.replace("-", " ").title())
        group = m.GROUP_TITLES.get(g, g.replace("-", " ").title())
        for b in bs:
            s = b["stats"]
            sol = b["params"]["solver"]
            if sol.startswith("<function"):
                sol = sol.split()[1]
            k = s["median"]
            speed = max(meds) / k if k > 0 else 1.0
            row = (f"`{sol}`", str(M), "Yes" if pro else "No", "low" if low else "high",
                   *(f"{s[q] * 1e6:.1f}" for q in ("median", "mean", "iqr")),
                   f"{speed:.1f}x", str(s["rounds"]))
            out[group, title].append((row, 1 + sum(q < k for q in meds), sum(q <= k for q in meds)))
    return out


def check(ctx, shard, case):
    m = module()
    reports = case["reports"]
    before = json.dumps(reports)
    START, END = m.START_MARKER, m.END_MARKER
    tmp = pathlib.Path(tempfile.mkdtemp(dir=os.environ.get("PBT_SCRATCH")))
    readme, bench = tmp / "README.md", tmp / "b"
    doc = case["doc"]
    exp = expected(m, reports)
    dup = any(len(r) > 1 for r in exp.values())
    ctx.nontrivial = dup or START in doc or END in doc
    try:
        bench.mkdir()
        empty = attempt(ctx, m.load_reports, bench)
        if not isinstance(empty, Raised) or not isinstance(empty.exc, FileNotFoundError):
            raise Violation(f"no report at all gives {empty!r}")
        for i, r in enumerate(reports):
            (bench / f"{i:03d}.json").write_text(json.dumps(r), encoding="utf-8")
        got = attempt(ctx, m.load_reports, bench)
        if isinstance(got, Raised) or json.dumps(got) != before:
            raise Violation(f"the reports are read as {got!r}")
        section = attempt(ctx, m.build_section, got)
        if isinstance(section, Raised):
            raise Violation(f"build_section fails with {section!r}")
        rows(ctx, section, exp, reports, START, END)
        inject(ctx, m, readme, doc, section, case["times"], START, END)
        whole(ctx, m, readme, bench, doc, exp, START, END)
    finally:
        for p in sorted(tmp.rglob("*"), reverse=True):
            p.rmdir() if p.is_dir() else p.unlink()
        tmp.rmdir()


def rows(ctx, section, exp, reports, START, END):
    if section.count(START) != 1 or section.count(END) != 1 or \
            section.index(START) > section.index(END):
        raise Violation("the section is not delimited by its markers")
    got = parse(section)
    if set(got) != set(exp):
        raise Violation(f"scenarios {set(got) ^ set(exp)} are missing or there is no such benchmark")
    groups = [g for g, _ in got]
    if any(groups[i] != groups[i - 1] and groups[i] in groups[:i] for i in range(1, len(groups))):
        raise Violation("a group is split")
    for key, want in exp.items():
        have = got[key]
        a = collections.Counter(tuple(r[1:]) for r in have)
        b = collections.Counter(w[0] for w in want)
        if a != b:
            raise Violation(f"{key}: rows {list((a - b).elements())} instead of "
                            f"{list((b - a).elements())}")
        pool = collections.defaultdict(list)
        for row, lo, hi in want:
            pool[row].append((lo, hi))
        seen = collections.Counter()
        for r in have:
            try:
                k = int(r[0])
            except ValueError:
                raise Violation(f"{key}: rank {r[0]!r}")
            if not any(lo <= k <= hi for lo, hi in pool[tuple(r[1:])]):
                raise Violation(f"{key}: {r} has not the rank of its median, {pool[tuple(r[1:])]}")
            seen[k] += 1
        # every case ranks its benchmarks from 1 to their number
        total = collections.Counter()
        ties = collections.Counter((lo, hi) for _, lo, hi in want)
        for (lo, hi), n in ties.items():
            for j in range(lo, hi + 1):
                total[j] += n // (hi - lo + 1)
        if seen != total:
            raise Violation(f"{key}: ranks {sorted(seen.elements())} instead of "
                            f"{sorted(total.elements())}")
    info = reports[0].get("machine_info", {})
    for v in (info.get("python_version"), info.get("cpu", {}).get("brand_raw"),
              reports[0].get("commit_info", {}).get("id", "unknown")[:12]):
        if v is not None and v not in section:
            raise Violation(f"{v!r} is not in the section")


def body(section, START, END):
    return section[section.index(START):section.index(END) + len(END)]


def inject(ctx, m, readme, doc, section, times, START, END):
    readme.write_bytes(doc.encode("utf-8"))
    last = None
    new = doc
    for _ in range(times):
        out = attempt(ctx, m.update_readme, readme, section)
        if isinstance(out, Raised):
            raise Violation(f"update_readme fails with {out!r}")
        new = readme.read_bytes().decode("utf-8")
        if last is not None and new != last:
            raise Violation(f"updating twice is not the same as once: {last!r}, {new!r}")
        last = new
    merged(ctx, doc, new, section, START, END)


def merged(ctx, doc, new, section, START, END):
    b = body(section, START, END)
    i = doc.find(START)
    j = doc.find(END, i) if i >= 0 else -1
    if j < 0:
        ctx.label("appended")
        # blank space at the end of the document is not significant
        k = new.rfind(section.rstrip("\n"))
        if k < 0 or new[k:].rstrip() != section.rstrip():
            raise Violation(f"the section is not at the end of {new!r}")
        if new[:k].rstrip() != doc.rstrip():
            raise Violation(f"the document {doc!r} becomes {new[:k]!r}")
        return
    ctx.label("replaced")
    head, tail = doc[:i], doc[j + len(END):]
    if not new.startswith(head):
        raise Violation(f"text before the section is not what it was: {doc!r} becomes {new!r}")
    if not new[len(head):].startswith(b):
        raise Violation(f"the section is not verbatim in {new!r}")
    rest = new[len(head) + len(b):]
    if START in tail and END in tail[tail.find(START):]:
        return          # several sections: the first one is up to date
    if rest.lstrip("\r\n") != tail.lstrip("\r\n") or abs(
            (len(rest) - len(rest.lstrip("\r\n"))) - (len(tail) - len(tail.lstrip("\r\n")))) > 1:
        raise Violation(f"text after the section is not what it was: {doc!r} becomes {new!r}")


def whole(ctx, m, readme, bench, doc, exp, START, END):
    """The command line."""
    readme.write_bytes(doc.encode("utf-8"))
    argv = sys.argv
    try:
        sys.argv = ["x", "--benchmarks-dir", str(bench), "--readme", str(readme)]
        out = attempt(ctx, m.main)
    finally:
        sys.argv = argv
    if isinstance(out, Raised):
        raise Violation(f"the program fails with {out!r}")
    new = readme.read_bytes().decode("utf-8")
    i = doc.find(START) if doc.find(END, max(doc.find(START), 0)) > doc.find(START) >= 0 else new.rfind(START)
    j = new.find(END, i)
    if i < 0 or j < 0 or set(parse(new[i:j])) != set(exp):
        raise Violation("the program does not inject the section")
