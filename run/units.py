"""Which units belong to which property, and how they are verified."""
import json, os, re, subprocess
from concurrent.futures import ThreadPoolExecutor

VERIF = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
REPO = "/repo"
UNITS = os.path.join(VERIF, "units")
BUILD = os.path.join(VERIF, "build")
VX = os.path.join(VERIF, "vx", "target", "release", "vx")
RLIMIT = "60"

RULES = {
    "L": "fixed regression list, enumeration over small alphabets, then seeded random patterns and texts near their languages; non-trivial: the text is not empty; distinct by pattern list and text",
    "P": "list of textbook grammars, large grammars, enumeration of two-variable grammars, then seeded random grammars; every case non-trivial; distinct by builder calls and texts",
}
IDENTITY = "two variables or terminals are equal for Eq exactly if they are the same, and Hash agrees with Eq"
TERMINALS = "terminal_eq of the user's type is an equivalence and terminal_hash agrees with it"
POINTERS = "a pinned reference to a symbol, body or terminal shows the value it was made from"
LOOPS = "termination of Slr::parse is proved in P06, for grammars in which every variable derives something"
CALLABLES = "a token kind function may return a different kind at each call, of a set that does not change"
ASSUMPTIONS = {
    "L05": [CALLABLES], "L06": [CALLABLES], "L07": [CALLABLES], "L08": [CALLABLES],
    "P01": [IDENTITY],
    "P02": [IDENTITY, TERMINALS, POINTERS, "a copy of a variable is the same variable"],
    "P03": [IDENTITY, "a pinned reference to a symbol or body shows the value it was made from",
            "the states of an automaton lie in memory, so there are fewer than 2^64 - 1 (axiom states_fit)"],
    "P04": [IDENTITY, TERMINALS, POINTERS],
    "P05": [IDENTITY, TERMINALS, POINTERS, LOOPS, CALLABLES],
    "P06": [IDENTITY, TERMINALS, POINTERS, CALLABLES,
            "termination of Slr::parse is proved for grammars in which every variable derives something; without that it does not hold (known finding)"],
    "P07": [IDENTITY, TERMINALS, POINTERS, LOOPS, CALLABLES],
    "P08": [IDENTITY, TERMINALS, POINTERS, LOOPS, CALLABLES],
}

# property -> units; the contracts of a unit are described in DESIGN.md
PROPS = {
    "L01": ["parser"],
    "L02": ["tokenizer"],
    "L03": ["charset"],
    "L04": ["compiler", "sim"],
    "L05": ["lexer"],
    "L06": ["lexer"],
    "L07": ["lexer"],
    "L08": ["lexer"],
    "L09": ["sim", "lexer"],
    "P01": ["builder"],
    "P02": ["first", "follow", "table"],
    "P03": ["items", "cfsm"],
    "P04": ["table", "slrnew"],
    "P05": ["slr"],
    "P06": ["slr", "complete", "total"],
    "P07": ["terminal", "slr"],
    "P08": ["slr", "lexer"],
}
# of these units only the obligations that a call returns without panicking belong to the property
RETURNS = {("L09", "lexer")}
RETURN_ERRORS = re.compile(r"precondition not satisfied|overflow|decreases|termination|unreachable")


def level(pid):
    return "proof" if PROPS.get(pid) else "exploration"


def sh(cmd, timeout, cwd):
    p = subprocess.Popen(cmd, cwd=cwd, stdout=subprocess.PIPE, stderr=subprocess.PIPE, text=True, errors="replace",
                         start_new_session=True)
    try:
        out, err = p.communicate(timeout=timeout)
        return p.returncode, out, err
    except subprocess.TimeoutExpired:
        os.killpg(p.pid, 9)
        p.communicate()
        return None, "", "timeout"


def verus(path, timeout):
    code, out, err = sh(["verus", os.path.basename(path), "--rlimit", RLIMIT, "--multiple-errors", "3",
                         "--output-json", "--time"], timeout, os.path.dirname(path))
    try:
        return json.loads(out), err
    except ValueError:
        return {}, err or out


def trusted(text):
    """Everything the verifier takes for granted in a generated file."""
    found = []
    for m in re.finditer(r"assume_specification\s*(?:<[^>]*>)?\s*\[\s*([^\]]+?)\s*\]", text):
        found.append("contract of %s" % m.group(1))
    for m in re.finditer(r"axiom fn (\w+)", text):
        found.append("axiom %s" % m.group(1))
    for m in re.finditer(r"#\[verifier::external_body\]\s*(?:#\[[^\]]*\]\s*)*(?:pub\s+)?(fn|struct|proof fn)\s+(\w+)", text):
        found.append("%s %s" % ("contract of" if m.group(1) == "fn" else "type", m.group(2)))
    for m in re.finditer(r"\badmit\(\)|\bassume\(", text):
        found.append("ASSUME in the generated file")
    return sorted(set(found))


def loops_of():
    """The loops the invariants of every extracted function are written for."""
    return dict(l.rstrip("\n").rsplit("\t", 1) for l in open(os.path.join(UNITS, "loops.txt")))


def derives_of():
    """The traits the contracts take to be derived."""
    return dict(l.rstrip("\n").rsplit("\t", 1) for l in open(os.path.join(UNITS, "derives.txt")))


def functions_of(text):
    """(first line, last line, key) of every extracted function."""
    spans, start = [], None
    for n, line in enumerate(text.splitlines(), 1):
        if line.startswith("// FN "):
            start = (n, line[6:])
        elif line.startswith("// END") and start:
            spans.append((start[0], n, start[1]))
            start = None
    return spans


def one(pid, unit):
    d = os.path.join(BUILD, pid)
    os.makedirs(d, exist_ok=True)
    path = os.path.join(d, unit + ".rs")
    res = {
        "unit": unit, "status": "lost", "functions": [], "obligations": 0, "discharged": 0, "solver_ms": 0,
        "dropped": [], "detail": "", "trusted": [], "assumptions": [], "output": "",
        "cmd": "vx /repo units %s %s.rs && verus %s.rs --rlimit %s" % (unit, unit, unit, RLIMIT),
    }
    code, out, err = sh([VX, REPO, UNITS, unit, path], 60, VERIF)
    if code != 0:
        res["detail"] = (out + err).strip()[-600:] or "extraction failed"
        return res
    text = open(path).read()
    info = [l.split("\t") for l in open(path + ".info").read().splitlines()]
    fns = [l for l in info if l[0] == "fn"]
    res["functions"] = ["%s (%s)" % (l[1], l[2]) for l in fns]
    res["dropped"] = ["%s: %s" % (l[1], l[3]) for l in fns if len(l) > 3 and l[3]]
    derived = derives_of()
    gone = ["%s for %s" % (t, l[1]) for l in info if l[0] == "item"
            for t in derived.get("%s\t%s\t%s" % (unit, l[1], l[2]), "").split() if t != "Debug" and t not in l[3].split()]
    if gone:
        res["detail"] = "no longer derived: " + ", ".join(gone)
        return res
    assumed = [l for l in info if l[0] == "assumed"]
    if assumed:
        res["assumptions"] = ["contracts assumed in unit %s and proved in another unit: %s"
                              % (unit, ", ".join(l[1] for l in assumed))]
    names = {n for l in assumed for n in (re.split("::|/", l[1].split(" (")[0])[-1], l[1].rstrip(")").split("(")[-1])}
    res["trusted"] = [t for t in trusted(text) if t.split(" ")[-1] not in names]
    vpath = os.path.join(d, unit + "_vacuity.rs")
    sh([VX, REPO, UNITS, unit, vpath, "vacuity"], 60, VERIF)
    with ThreadPoolExecutor(2) as ex:
        main, guard = ex.submit(verus, path, 400), ex.submit(verus, vpath, 400)
        (j, err), (gj, gerr) = main.result(), guard.result()
    r = j.get("verification-results", {})
    if "verified" not in r or r.get("encountered-vir-error"):
        res["detail"] = "not accepted by the verifier: " + err.strip()[:800]
        return res
    res["solver_ms"] = j.get("times-ms", {}).get("smt", {}).get("total", 0)
    res["discharged"] = r["verified"]
    res["obligations"] = r["verified"] + r["errors"]
    # every extracted function must reject an assertion of falsehood at its start
    gerrs = gj.get("verification-results", {}).get("errors", 0)
    if gerrs < len(fns):
        res["detail"] = "vacuity guard: %d of %d functions reject a false assertion" % (gerrs, len(fns))
        return res
    if r["errors"] == 0 and r["verified"] >= len(fns) > 0:
        res["status"] = "proved"
        res["detail"] = "vacuity guard passed (%d functions)" % len(fns)
        return res
    spans = functions_of(text)
    real, where, other_errors = [], set(), 0
    for block in re.split(r"\n(?=error)", err):
        if not block.startswith("error") or block.startswith("error: aborting"):
            continue
        if "rlimit" in block.split("\n")[0].lower():
            continue
        if (pid, unit) in RETURNS and not RETURN_ERRORS.search(block.split("\n")[0]):
            other_errors += 1
            continue
        real.append(block.rstrip())
        for m in re.finditer(r"--> \S+?:(\d+):", block):
            n = int(m.group(1))
            where.update(k for a, b, k in spans if a <= n <= b)
    if not real and other_errors:
        res["detail"] = "the result of a function is not the one of its contract, which is another property: " + err.strip()[:400]
        return res
    if not real:
        res["detail"] = "the solver gave up: " + err.strip()[:400]
        return res
    if not where:
        # a lemma that no longer holds says nothing about a function
        res["detail"] = "a lemma about the contracts fails: " + real[0][:400]
        return res
    # invariants and proof steps are attached to loops, calls and ends by their number: a
    # failure says nothing if those of the function are not those they were written for
    known = loops_of()
    other = {"%s from %s" % (l[1], l[2]) for l in fns if known.get("%s\t%s" % (unit, l[1])) != l[4]}
    if where <= other:
        res["detail"] = "what the proof is attached to has changed in: " + ", ".join(sorted(where))
        return res
    where -= other
    res["status"] = "failed"
    res["detail"] = "failed in: " + ", ".join(sorted(where))
    res["output"] = "%s\ncommand: %s\n\n%s\n" % (res["detail"], res["cmd"], "\n\n".join(real))
    return res


def verify(pid, tier):
    us = PROPS.get(pid, [])
    if not us:
        return []
    code, out, err = sh(["cargo", "build", "--release", "--offline"], 600, os.path.join(VERIF, "vx"))
    with ThreadPoolExecutor(4) as ex:
        return list(ex.map(lambda u: one(pid, u), us))


NOTES = "Contracts in units/ are joined with functions extracted from /repo on every run (vx/) and given to Verus. Every check also runs a bounded search on the real crates; a failing input it finds is the replay file. See DESIGN.md."


def manifest_entry(pid):
    proof = level(pid) == "proof"
    e = {
        "property": pid,
        "quick_cmd": "python3 run/check.py %s" % pid,
        "thorough_cmd": "python3 run/check.py %s" % pid,
        "evidence_file": "evidence/%s.json" % pid,
        "technique": ("contracts on the extracted functions, discharged by Verus/Z3 (units: %s); plus bounded search on the real crates"
                      % ", ".join(PROPS[pid])) if proof else "bounded search on the real crates against an independent oracle",
        "level": level(pid),
        "level_note": LEVEL_NOTES.get(pid, "Bounded: generated inputs only, no proof."),
    }
    return e


LEVEL_NOTES = {
    "L01": "Proved: parse returns Ok exactly on the token sequences of the grammar in DESIGN.md, and the tree of the only reading. Composed with the contracts proved of the tokenizer (L02).",
    "L02": "Proved: the token sequence of every pattern text, for all texts. Trusted: standard iterators and char methods (see DESIGN.md, trusted base).",
    "L03": "Proved: membership of every class, set, literal and the counts of every quantifier. Unicode tables uninterpreted.",
    "L04": "Proved: the machine compiled from any list of syntax trees has exactly the texts their trees match at their final states (compiler), and feed, can_feed, is_accepting, simulate compute that (sim). Trusted: standard collections.",
    "L05": "Proved: next returns the longest prefix that some rule matches, for all inputs. Composed with the contracts proved of the reader of patterns (L01, L02), compiler (L04) and simulator (L09).",
    "L06": "Proved: the kind comes from the first rule that matches the longest prefix; final states are numbered in the order of the rules. Composed with the contracts proved of the reader of patterns (L01, L02), compiler (L04) and simulator (L09).",
    "L07": "Proved: start, end and order of the positions of every token, for all inputs. Composed with the contracts proved of the reader of patterns (L01, L02), compiler (L04) and simulator (L09).",
    "L08": "Proved: the text of every token is the part of the input between its positions, and nothing is lost when there is no token. Composed with the contracts proved of the reader of patterns (L01, L02), compiler (L04) and simulator (L09).",
    "L09": "Proved: the closure and every operation of the simulator end and give exactly the configurations reached, for every machine and text (sim), and next and is_finished return without panicking (lexer). Trusted: standard collections.",
    "P01": "Proved: the start variable and the bodies after every builder call, and that build panics exactly on incomplete grammars. Assumed: equality of variables and terminals is identity. Trusted: standard collections.",
    "P02": "Proved: first_bodies gives exactly the terminals the bodies can start with and whether they can be empty, follow_set exactly the terminals that can follow a variable, end_variables exactly the variables that can come last, and the table reduces on exactly these, for every whole grammar. All three end. Trusted: standard collections.",
    "P03": "Proved: the states of from_grammar are exactly the reachable closed item sets, without duplicates, numbered in order of discovery, with exactly the transitions of the item sets, for every whole grammar, and it ends. Trusted: standard collections, pinned pointers.",
    "P04": "Proved: the tables have exactly the actions and gotos of the automaton, and new panics exactly if a reachable item set has two actions for one lookahead, for every whole grammar. Trusted: standard collections, pinned pointers.",
    "P05": "Proved: if parse returns a tree, its root is the start variable, every inner node is a rule, and its leaves are the kinds of the tokens of the whole text, for every parser made by new; handle_token never panics. Termination is P06.",
    "P06": "Proved: if parse returns a tree, the start variable derives the tokens of the whole text; if it returns an error, no sentence starts with the tokens read, or the text ends there without being one, or no token follows; it returns if every variable derives something. Known finding: it does not always return otherwise. Trusted: standard collections.",
    "P07": "Proved: table keys compare and hash by terminal_eq and terminal_hash only, a token is shifted exactly for a terminal it is equivalent to, and the leaves hold the kinds of the tokens. Assumed: terminal_hash agrees with terminal_eq.",
    "P08": "Proved: if parse returns a tree, the lexer turned the whole text into the tokens that are the leaves, each once and in order. Trusted: standard collections.",
}
