"""What is claimed: one entry per property; gen.py writes properties.jsonl and MANIFEST.json from it."""
META = {}
NA = {}
F = ["salabim/salabim.py"]
PATH_TECH = "path-sensitive dataflow over the syntax tree (value numbering, interprocedural inlining, interval facts)"
COMMON = [
    "user callbacks (processes, call(), functions passed as arguments) are opaque: what they do to the model is outside the rule",
    "loops are followed for 0..1 iterations (quick) or 0..2 (thorough); a queue walk is canonicalised, so an element stands for any member",
    "subclass overrides by the user of public methods are not followed",
]


def P(pid, title, statement, over, text, why, mech, rule, technique=PATH_TECH, level="other", note=None, state=(), assumptions=()):
    META[pid] = dict(
        title=title, statement=statement, over=over, text=text, why=why, mech=mech, state=list(state), rule=rule, explanation=rule,
        technique=technique, level=level, note=note or rule, assumptions=list(assumptions) + COMMON,
    )


def N(pid, title, statement, over, text, why, mech, reason):
    NA[pid] = dict(title=title, statement=statement, over=over, text=text, why=why, mech=mech, state=[], reason=reason)


import claims  # noqa: E402,F401
