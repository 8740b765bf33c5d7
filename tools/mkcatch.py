"""Rewrites DESIGN.md's table of planted bugs from seeded/*/meta.json."""
import glob, json, os, re
root = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
rows = []
for d in sorted(glob.glob(root + "/seeded/*") + glob.glob(root + "/planted/*")):
    m = json.load(open(d + "/meta.json"))
    rows.append("| %s | %s | %s |" % (os.path.basename(d), m["property"], m["needs"].replace("|", "/").replace("\n", " ")))
text = """## 7. Planted bugs

Each was written from the text of a property and the code; `seeded/<id>` or
`planted/<id>` holds patch, demonstration and what it needs (`planted` is the
archive, kept apart so that the final run of vcheck fits its time; the form is the
same). c04-rescaled-values and c07-scan-levels were not run through the whole test
suite. The quick check of the named property
catches every one of them (seed 1). c09-iter-early-stop, c10-stale-blocks,
c16-range-space, c17-input-gain-by-inverse, c18-reference-hold and
c21-signed-error were missed at first; they led to more horizons (C09), reuse
of condensers (C10), quadratic programs with singular Hessians (C16), nearly
singular systems (C17), long references (C18) and signed perturbations (C21).
c11-hoist-input-gain was missed and led to continuous
problems in which only some coefficients vary, or take the same values at both
ends of the horizon (vf/oracles_ct.py, used by C11 to C13, C19, C23).
c20-shared-stage-check, c03-element-by-cost, c10-shared-powers and
c19-kept-exponential were missed and led to the step patterns of shared data
(`step_labels`) and to edits of every kind of problem object.
c15-reuse-linearization and c06-hoisted-factor were missed later; they led to
the group `near` of C15 (one solver used on nominals close to each other, or
edited in place) and to problems in which one coefficient is shared by all steps
while the others vary (`share` in vf/oracles_lq.py, used by C05 to C08, C10, C15
and C19). c11-offset-at-start and c20-zero-list were missed and led to *pulses* and
to malformed data that say nothing.

| id | property | needs |
|---|---|---|
""" + "\n".join(rows) + "\n"
s = open(root + "/DESIGN.md").read()
s = re.sub(r"\n## 7\. Planted bugs\n.*\Z", "\n", s, flags=re.S).rstrip("\n") + "\n\n" + text
open(root + "/DESIGN.md", "w").write(s)
