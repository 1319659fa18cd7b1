#!/usr/bin/env python3
"""Shows that the models are not vacuous: with each of the mistakes that the
specification can build in, TLC finds a counterexample within the quick bounds."""
import os, shutil, sys, tempfile
sys.path.insert(0, os.path.dirname(os.path.dirname(os.path.abspath(__file__))))
import check

CASES = [(check.index("core", 3, 3), "Defects", d) for d in (
            "overwrites_child", "split_drops_pattern", "parser_with_child_never_ends", "skips_empty_literal",
            "no_fallback", "only_longest_literal", "accepts_partial_literal", "literals_hide_parsers")]
CASES += [(check.index("close", 2, 3), "Defects", "forgets_bounds"), (check.lits(3, 3, 3), "Defects", "split_forgets_value")]
CASES += [(check.load(3), "Mistakes", d) for d in ("lenient_gives_up", "skips_first_test", "lenient_drops_pattern")]
work = tempfile.mkdtemp()
bad = 0
for m, const, name in CASES:
    m = dict(m, consts=dict(m["consts"], **{const: '{"%s"}' % name}))
    try:
        check.model(m, 0, work, check.CORES, emit="FALSE")
        print("%-30s NOT NOTICED" % name); bad = 1
    except check.ToolError as e:
        hit = [l for l in str(e).splitlines() if "is violated" in l or "violated" in l]
        print("%-30s %s" % (name, hit[0] if hit else str(e)[:300])); bad |= not hit
    sys.stdout.flush()
shutil.rmtree(work)
sys.exit(bad)
