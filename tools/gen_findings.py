"""Writes known_findings.json. "findings": defects recorded rather than repaired (none). "fixed": repaired ones."""
import json, os, subprocess
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
FIX = """
3a14490 C06 the constant factor of a product distributed over a sum was lost, so 2*3*(u + 1) was wrong
1dbaae4 C07 common factors were cancelled against the wrong numerator, so quotients got wrong values and identities
3ce9a4a C06 constants under //, %, ** and ^ were folded with the wrong operator
2e8ddaa C06 unhandled syntax was accepted and evaluated as something else instead of raising an error
5c6820b C07 differently named broadcast constants did not compare
059dc41 C08 negated predicates ("not p") were filled without the negation
f5e5783 C08 "c in {...}" was never true
a823a6a C19 max, min and log with more arguments overwrote the caller's arrays
9e124c3 C06 //, ^ and round were parsed but could not be computed
97c2c9f C08 comparisons of string fields failed
4e22330 C06 an expression that is a plain field and also part of another was lost when filling
4377ab3 C06 calls of constants had no value, fields were listed twice and included constants
4454861 C07 constants were ordered inconsistently with equality and sets of mixed types could not be hashed
6309cfd C06 errors in expressions with literals raised AttributeError
0e7d09a C01 single precision values next to an edge got into the neighboring bin, and groupbins filled from single and from double precision data had two bins for the same interval
2858518 C01 infinite, very large and narrow-typed values got into wrong bins
35d3011 C05 histograms made from the same axis objects shared them
bf26bc6 C05 defs and attachment dicts were shared with the caller
63c8f4f C03 a single fill array was refused for a histogram with one field and several axes
7097815 C02 profiles and weights included entries of dropped bins in the wrong place
79c1a04 C02 squares of narrow integers wrapped around
b25788b C04 sums and products shared content, weighted plus unweighted was accepted
c9987d8 C17 deleting by pattern deleted whole sub-books
547d072 C16 members added inside nested books were not filled
3566bc5 C18 sums of books shared members with their operands
8af4a87 C23 group lost weighted sums and filters and failed on unfilled histograms; togroup failed
92861ea C15 numeric group keys and Numpy weights did not survive JSON text
d4efe21 C01 groupbin axes with NaN entries could not list their keys
3619e03 C11 rebinby combined wrong bins, rebin by axis index failed
ade1c18 C10 project over several group keys lost entries
455e6bf C12 drop mixed up the sums of the remaining profiles
e51b06b C09 select with several or/and terms on a group axis used only the last
b1cad25 C05 select on a group axis shared bins with the original
2bd7de0 C09 select by infinite and NaN thresholds kept wrong bins
19daf72 C13 normalized tables with group axes or irregular bins were wrong
5fe1c07 C02 the error of a profile without spread could be NaN
6acd76d C14 confidence levels were converted to sigmas wrongly without scipy
f0432b3 C23 groupkeys of an unfilled histogram failed
dc737b8 C21 error bars in combined plots showed other plots' rows; intbin heatmaps failed
a2e6c86 C22 fractions without fixed axes and groupbins with NaN could not be exported
0673819 C06 keyword arguments of functions were silently ignored
49fe966 C18 adding a book in place lost attachments
eaf2f2b C24 a change a SystematicsBook refused was made nevertheless
23efabb C15 unpickled and copied histograms shared content
867d69f C06 log with three arguments was computed as something else
5046213 C06 functions without arguments failed while filling
82d560b C07 De Morgan and double negation of mixed and/or expressions were not the same
1d8109c C19 adding a book in place that has a member that cannot be added changed the members before it
b56dda3 C20 the NaN interval was less than itself
2233c24 C21 plots of unfilled histograms with group axes failed
0df19b0 C21 color domains and stacking orders of cuts and intbins named labels that are not in the data
1bd65ea C22 the DataFrame of an unfilled histogram had no index names below the group axis
e3fdf98 C20 the last finite label of a regular axis could end a rounding error before or after the axis's high edge, overlapping the overflow label or leaving a gap
1930b5f C01 exact edges of regular axes got labels that were off by a rounding error, so that values on them were in a bin whose label does not contain them, and rebinning at them was refused
cb1ef93 C08 an equality between a string field and a number gave one result for all entries, so that cuts counted one entry instead of all and books were filled in part
02509ff C06 constants combined with |, &, ^ became unsigned, so that subtracting or negating them wrapped around
472d435 C14 an unknown error method gave zero errors (fraction(cut, error="Normal"))
d02132e C29 a histogram made with an axis of another histogram used the definitions of that histogram, not those it prints
2f55e01 C21 the repr of plots ran its arguments together (.step(bin('x', ...)error=True)), that of combinations left out numcol and config
"""
fixed = []
for line in FIX.strip().splitlines():
    commit, prop, what = line.split(" ", 2)
    fixed.append("fixed: property=%s %s %s" % (prop, commit, what))
log = subprocess.run(["git", "-C", "/repo", "log", "--format=%h %s"], stdout=subprocess.PIPE, text=True).stdout.splitlines()
missing = [l for l in log if l.split(" ", 1)[1].startswith("fix:") and l.split()[0] not in FIX]
assert not missing, missing
with open(os.path.join(HERE, "known_findings.json"), "w") as f:
    json.dump({"findings": [], "fixed": fixed}, f, indent=1)
    f.write("\n")
