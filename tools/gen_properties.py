"""Writes properties.jsonl (kept as a script so that the wording stays reviewable)."""
import json, os
P = []
def prop(id, title, statement, over, text, why, files, mech, observe, state=()):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": text}, "why_tests_cant": why,
              "anchors": {"files": files, "state": [dict(name=n, meaning=m, where=w) for n, m, w in state],
                          "mechanism": [dict(name=n, where=w) for n, w in mech],
                          "observe_at": observe, "hook_needed": None}})

prop("C01", "Every entry lands in exactly the bin whose label contains its value",
  "For any combination of groupby, groupbin, bin, intbin, split and cut axes with any flow and closed-edge options, filling adds each entry to exactly the one bin whose labelled interval (or category, integer, pass/fail) contains its value on every axis, and to no other bin. Values exactly on an edge follow closedlow, +-infinity and arbitrarily large values go to the overflow or underflow bin (of intbin too, for any integer width), NaN to the nanflow bin of bin/split/groupbin, and an entry whose bin was switched off is dropped without affecting any other entry.",
  ["inputs", "configurations"], "all axis combinations (1-4 axes), all flow/closedlow settings, all finite/infinite/NaN/integer/string/boolean values and input dtypes, all array lengths including 0",
  "tests fill a few fixed arrays per axis type with default-ish options; they never combine switched-off flows across axes, infinities, very large values, small integer dtypes or edge values under closedlow=False on several axes",
  ["histbook/calc/__init__.py", "histbook/hist.py", "histbook/axis.py"],
  [("histbook_bin / histbook_intbin / histbook_split / histbook_groupbin / histbook_groupby", "histbook/calc/__init__.py"), ("Hist._postfill: index composition over axes, masks, dict descent", "histbook/hist.py"), ("axis keys()", "histbook/axis.py")],
  ["Hist.table", "axis.keys(content)"], [("content", "per-bin sums, dicts for group axes then arrays", "Hist")])

prop("C02", "Bin contents are the exact weighted sums of the entries in the bin",
  "For every bin, the reported count is the sum of weights of the entries filled into it, its error is the square root of the sum of squared weights (of the count when unweighted), and each profile is the weighted mean of its expression with the matching error of the mean; every profile column belongs to its own expression. A filter acts exactly like multiplying the weight by 1 or 0, and an entry whose weight is NaN contributes nothing.",
  ["inputs", "configurations"], "all weights (None, numbers, expressions, NaN, zero, negative), filters, 0-3 profiles, axis mixes and switched-off flows",
  "tests use one weight expression and one or two profiles on default axes; no test combines profiles with dropped entries, groups, filters and NaN weights",
  ["histbook/hist.py", "histbook/proj.py"],
  [("Hist.__init__ column layout (sumwx, sumwx2, sumw, sumw2)", "histbook/hist.py"), ("Hist._postfill/fillblock/filldict", "histbook/hist.py"), ("Projectable.table", "histbook/proj.py")],
  ["Hist.table"], [("last axis of content", "sumwx,sumwx2 per profile, sumw, sumw2", "Hist")])

prop("C03", "The way data are presented to fill does not change the result",
  "Filling is additive and order-free: splitting the data into any sequence of fill calls (including empty ones) and permuting the entries gives the same histogram. Passing fields as dict, keyword arguments, a mix (keywords take precedence), lists, arrays of any suitable dtype, scalars broadcast over the other arrays, a DataFrame, or through the fill= constructor option also gives the same histogram, extra unused fields are ignored, and the fields attribute names exactly the fields the expressions use. A named constant (pi, e) stands for its number unless a field of that name is given.",
  ["inputs", "histories"], "all datasets, all partitions into chunks, all permutations, all argument forms",
  "tests fill once or twice with fixed arrays; the quantifier over partitions, permutations and argument forms is not explored",
  ["histbook/fill.py", "histbook/hist.py", "histbook/util/__init__.py", "histbook/instr.py"],
  [("Fillable._fill / fields", "histbook/fill.py"), ("Hist.fill argument handling, ChainedDict", "histbook/hist.py, histbook/util"), ("dependency graph and instruction order", "histbook/instr.py")],
  ["Hist.table", "Hist.fields"])

prop("C04", "Histogram addition and scaling obey the algebra of their contents",
  "The sum of histograms equals the histogram filled with the concatenated data: + is commutative and associative, an unfilled histogram is its identity, categories present on one side only are kept, and h *= k, h += g give the same result as h * k, h + g. Multiplication by a number multiplies counts, error columns' sums and profile sums uniformly (profile means unchanged), k*h equals h*k; non-histograms, histograms with different axes or one weighted and one unweighted are rejected and leave both operands unchanged.",
  ["inputs", "histories", "configurations"], "all histogram specifications, datasets, scalars and sequences of + and *, filled or not",
  "tests add and scale a couple of filled one-axis histograms; unfilled operands, group axes with disjoint keys, mixed weights and in-place chains are not reached",
  ["histbook/hist.py"], [("Hist.__add__/__iadd__/__mul__/__rmul__/__imul__", "histbook/hist.py")], ["Hist.table", "=="])

prop("C05", "Derived histograms and books are independent of their sources",
  "Any histogram or book obtained from others (copy, copyonfill, cleared, weight/filter/systematic, +, *, project, drop, select, rebin, rebinby, group, JSON round trip, book copy/sum) is an independent value: filling, scaling, adding into, clearing or attaching metadata to one never changes the contents, metadata or later fill behaviour of any other. Equally, deriving an object never changes the object it was derived from, including how that object behaves when filled afterwards.",
  ["histories"], "all sequences of deriving and mutating operations over a pool of histograms",
  "aliasing only shows after a specific multi-step history (derive, then mutate either side, then look at the other); tests never look at the source again",
  ["histbook/hist.py", "histbook/proj.py", "histbook/book.py"],
  [("Hist.copy/copyonfill/_copycontent, axis copies in Hist.__init__", "histbook/hist.py"), ("_selectaxis, projcontent, dropcontent, rebin recursion", "histbook/proj.py, histbook/axis.py")], ["Hist.table", "Hist.attachment"],
  [("_content", "arrays/dicts that must not be shared", "Hist"), ("axis index fields", "position of an axis in one histogram", "axis objects")])

prop("C06", "Expressions compute what they say",
  "A quantity written as an expression over fields, numbers, named constants, definitions and supported functions (+ - * / // % **, unary minus, parentheses, abs/min/max/sqrt/exp/log/sin/.../where with any number of arguments the function takes) is binned and averaged with the value ordinary evaluation of that expression gives for each entry, up to floating-point rounding. This holds however the expression is rewritten internally and however many sub-expressions it shares with other axes, weights, filters or histograms filled in the same call; unsupported syntax is rejected with an error, never silently misread.",
  ["programs", "inputs"], "all expression trees over the supported grammar, with definitions, and all field values in the operations' domain",
  "tests compare the structure of about a hundred hand-written expressions and evaluate only a few; arbitrary nesting, cancellation, distribution and sharing are not sampled",
  ["histbook/expr.py", "histbook/instr.py", "histbook/calc/__init__.py", "histbook/fill.py"],
  [("Expr.parse, PlusMinus/TimesDiv combine/distribute/collect/simplify", "histbook/expr.py"), ("totree, CallGraphNode, walkdown, instructions", "histbook/instr.py"), ("calculate and library", "histbook/calc/__init__.py")], ["profile means and bins via Hist.table"])

prop("C07", "Expressions are identified up to algebraic identity, and only then",
  "Two expressions that are equal by commutativity, associativity, distribution over sums, collecting and cancelling like terms, double negation, swapping the sides of a comparison, De Morgan or substitution of definitions are recognised as the same expression and find the same axis by name. Expressions that take different values for some fields are never considered equal, and equality, hashing and ordering of expressions are mutually consistent.",
  ["programs"], "all pairs of expression trees related by the listed rewrites, and all pairs of unrelated trees",
  "tests pin a list of hand-picked identities; soundness (never equating different quantities) cannot be sampled by examples",
  ["histbook/expr.py", "histbook/proj.py"], [("Expr.parse normal forms, __eq__/__hash__/__lt__", "histbook/expr.py"), ("AxisTuple lookup", "histbook/proj.py")], ["Expr.parse ==", "Hist.axis[expr]"])

prop("C08", "Logical expressions select exactly the entries that satisfy them",
  "A boolean expression built from comparisons (including chained ones), set membership, boolean fields, and/or/not in any nesting, used as a cut axis, a filter or the condition of where(), is true for exactly the entries for which ordinary evaluation is true (for non-NaN values), for numeric, integer, boolean and string fields. An arithmetic expression is refused as a filter.",
  ["programs", "inputs"], "all boolean expression trees and all non-NaN field values",
  "tests check the normal form of some logical expressions but evaluate only single comparisons during fill",
  ["histbook/expr.py", "histbook/instr.py", "histbook/calc/__init__.py", "histbook/hist.py"],
  [("Logical/LogicalAnd/LogicalOr/Relation/Predicate", "histbook/expr.py"), ("totree for relations and predicates", "histbook/instr.py"), ("histbook.cut, where, isin", "histbook/calc/__init__.py")], ["Hist.table of cut axes, filters, where()"])

prop("C09", "select keeps exactly the data that satisfy the selection",
  "If a selection is accepted, the resulting histogram equals one with the surviving bins filled only with the entries satisfying the selection: the kept bins have unchanged contents and labels, and all others are gone. A threshold that does not coincide with a bin edge, or that uses the inequality of the wrong side of the edge, or an expression no axis can decide, is refused with an error, never approximated, and conjunctions equal successive selections.",
  ["inputs", "configurations"], "all histograms, all comparison/membership/boolean selections and conjunctions (disjunctions on category axes), thresholds on, near and off edges, infinite and NaN thresholds",
  "tests try a few thresholds per axis type on axes with all flows on; flow combinations, multi-axis histograms, groups with NaN and disjunctions are not covered",
  ["histbook/proj.py", "histbook/axis.py"], [("Projectable.select/_select/_selectaxis", "histbook/proj.py"), ("_select of every axis class", "histbook/axis.py")], ["Hist.table", "axis.keys"])

prop("C10", "project sums over the removed axes and nothing else",
  "Projecting onto any subset of axes gives exactly the histogram that would have been filled with only those axes from the entries that are in some bin of the original: counts, errors and all profiles are the sums over the removed axes (including their flow bins). It holds for any number of categories (0, 1, odd, even), any axis types and orders, filled or not, and projecting in steps equals projecting at once.",
  ["inputs", "configurations"], "all histograms, all subsets of axes given as axis, name or position",
  "tests project two- and three-axis histograms with fixed data; numbers of categories other than those sampled and mixes of kept/removed group axes are not explored",
  ["histbook/proj.py"], [("Projectable.project (projarray, addany, addall, projcontent)", "histbook/proj.py")], ["Hist.table"])

prop("C11", "Rebinning equals filling with the coarser bins",
  "rebin(axis, edges) and rebinby(axis, factor) return the histogram that the coarser axis would have got from the same data: each new bin is the sum of the old bins inside it, entries outside the new range go to (or, if absent, are dropped with) the flow bins, NaN and other axes and profiles are untouched. rebinby(k) merges k consecutive bins (the last may be smaller; for groupbin the width becomes k times as large), edges that are not existing edges are refused, and the result can be filled further like the coarser histogram.",
  ["inputs", "configurations"], "all rebinnable axes (bin, intbin, split, groupbin), all edge subsets and factors, all positions among other axes and flow settings",
  "tests rebin single axes with all flows on; rebinby and group/multi-axis/flow-less variants are untested",
  ["histbook/axis.py", "histbook/proj.py"], [("Projectable.rebin/rebinby", "histbook/proj.py"), ("_rebinsplit/_rebinfactor", "histbook/axis.py")], ["Hist.table", "axis.keys"])

prop("C12", "drop removes the named profiles and nothing else",
  "Dropping any non-empty subset of profile axes (by axis, name or position-independent expression) gives exactly the histogram that would have been filled without them: counts, count errors and the remaining profiles are unchanged, for weighted, filtered and plain histograms with any other axes. The result can be filled further.",
  ["inputs", "configurations"], "all histograms with 1-4 profiles, all subsets, weighted/filtered/plain, filled or not",
  "tests do not exercise drop with several profiles and weights",
  ["histbook/proj.py"], [("Projectable.drop", "histbook/proj.py")], ["Hist.table"])

prop("C13", "table reports the documented statistics under every option",
  "table() returns, for every bin and in the documented column order, count, error, effective count (sum w)^2/(sum w^2) and requested profile means and errors, where options only add or remove columns and never change a column's values; profile columns follow the order requested. With normalized=True the finite bins' counts are the bin's count divided by its width, scaled to sum to 1 (errors scaled alike, flow bins zero, profiles unaffected), record and plain forms and the column list agree with each other. A table is a copy: changing it does not change the histogram.",
  ["inputs", "configurations"], "all histograms, all option combinations, any subset and order of profiles",
  "tests check a few tables with default options; option combinations, multi-axis normalisation with irregular bins and effective counts are not covered",
  ["histbook/proj.py", "histbook/axis.py"], [("Projectable.table", "histbook/proj.py"), ("binwidth/finiteslice", "histbook/axis.py")], ["Hist.table"])

prop("C14", "fraction is the passing share of each bin with correct intervals",
  "fraction(cuts) gives, for every bin of the remaining axes, the count and for each requested cut the share of the bin's (weighted) entries that pass it, irrespective of other cuts, profiles, groups and weights in the histogram; bins without entries give 0. The normal and Wilson errors are the standard formulas for the requested confidence levels, one column per level; error methods that are not available are refused.",
  ["inputs", "configurations"], "all histograms with 1-3 cut axes in any position, with other axes, groups, profiles, weights; all levels in (0,1)",
  "fraction is not tested at all for values",
  ["histbook/proj.py"], [("Projectable._fraction, level2sigmas", "histbook/proj.py")], ["Hist.fraction"])

prop("C15", "Saving and restoring preserves a histogram or book completely",
  "Pickling, and converting to JSON text and back, give an object equal to the original with the same axes, weights, filters, definitions, attachments, nesting and contents, for every histogram and book, filled or not, including sparse and categorical axes with numeric keys and NaN bins. The restored object behaves identically afterwards: filling both with the same data keeps them equal, and saving it again gives the same text.",
  ["inputs", "histories", "configurations"], "all histograms and (nested) books in any state reachable by fill and derivations",
  "tests round-trip two small histograms without passing through JSON text and never fill the restored object",
  ["histbook/hist.py", "histbook/book.py", "histbook/axis.py"], [("tojson/fromjson, __getstate__/__setstate__, _pack/_unpack", "histbook/hist.py, histbook/book.py, histbook/axis.py")], ["==", "Hist.table"])

prop("C16", "Filling a book fills every member exactly as if filled alone",
  "Book.fill gives every histogram in the book, at any nesting depth, exactly what filling that histogram alone with the same data would give, whatever expressions the members share and whatever their order or names. This stays true when members are added, replaced or deleted between fills, directly or inside a nested book, when members were obtained by copyonfill, and for the empty book.",
  ["histories", "programs", "inputs"], "all books, nesting structures, shared sub-expressions, and sequences of modifications and fills",
  "tests fill one or two flat books once; stale compiled fill plans and shared intermediate results only appear in histories of changes between fills",
  ["histbook/book.py", "histbook/fill.py", "histbook/instr.py", "histbook/hist.py"],
  [("Book._goals/_streamline/_changed/fill", "histbook/book.py"), ("Fillable.fields (common plan)", "histbook/fill.py"), ("instructions/Delete", "histbook/instr.py")], ["Hist.table of members"],
  [("compiled instructions", "cached plan that must follow every change", "Book")])

prop("C17", "A book behaves as an ordered path-keyed mapping with wildcards",
  "Under any sequence of assignments, deletions, lookups and iterations, a book behaves like a nested ordered mapping: a path with slashes addresses nested books (created on assignment), a later assignment replaces, deletion removes exactly the addressed item, and missing names raise KeyError leaving the book unchanged. Wildcard lookups return exactly the items whose full path matches, in order, wildcard deletion removes exactly those, and len, in, keys/values/items and their recursive or histogram-only variants always agree with each other.",
  ["histories"], "all sequences of operations over nested books, paths and patterns",
  "tests perform a handful of fixed assignments; histories with replacement, nested deletion and wildcard deletion are not covered",
  ["histbook/book.py"], [("GenericBook._get/_set/_del/__getitem__/__delitem__/_iteritems", "histbook/book.py")], ["Book mapping interface"])

prop("C18", "Book arithmetic acts member by member",
  "Adding books adds histograms of the same name (recursively in nested books) and keeps members present on one side only; scaling scales every member; in-place forms change the very histograms the book holds and agree with the others and with the same operation done on each histogram, attachments are merged with the right operand winning. clear, cleared, copy and compatible act on all members at every depth, and operands are left unchanged by non-in-place operations.",
  ["inputs", "histories"], "all pairs of books with overlapping, disjoint and nested names, filled or not, and scalars",
  "tests add one pair of books with identical names",
  ["histbook/book.py", "histbook/hist.py"], [("GenericBook.__add__/__iadd__/__mul__/__imul__/clear/cleared/copy/compatible", "histbook/book.py")], ["Book members' tables"])

prop("C19", "A failed call changes nothing and user data are never modified",
  "If fill is refused (missing field, arrays of different lengths) the contents of every histogram involved are as before and later fills work normally. No operation ever modifies the arrays, dicts, axes, or option values passed to it by the user.",
  ["fault_sequences", "inputs", "histories"], "all histograms and books, all invalid fills (any missing field, any mismatched length) at any point of a fill history, and all valid calls",
  "tests do not check state after an error nor input arrays after a fill",
  ["histbook/fill.py", "histbook/hist.py", "histbook/book.py", "histbook/calc/__init__.py"], [("Fillable._fill (all calculation before any accumulation)", "histbook/fill.py"), ("calc functions work on fresh arrays", "histbook/calc/__init__.py")], ["Hist.table", "input arrays"])

prop("C20", "Axes are faithful values: labels tile the line, copies and text agree",
  "For every axis, the labels returned by keys() match the number and order of its bins, and every number (and NaN) belongs to at most one label, exactly one when all flows are on; finite labels are contiguous from low to high. Axis equality, hash, copy, relabel, compatible, repr (as source text) and JSON agree: an axis equals its copy, re-evaluated repr and JSON round trip, changing any parameter makes it unequal, relabel changes only the expression, and invalid parameters are refused.",
  ["configurations", "inputs"], "all axis types with all valid and invalid parameter combinations",
  "tests construct a few axes; parameter combinations and label coverage are not explored",
  ["histbook/axis.py"], [("axis constructors, keys, __eq__, __hash__, copy, relabel, compatible, tojson", "histbook/axis.py"), ("Interval", "histbook/axis.py")], ["axis objects"])

prop("C21", "Plots show the data of the histogram",
  "The Vega-Lite document of any plot (bar, step, area, line, marker, heatmap with overlay, stack, beside, below, and overlay/beside/below/grid combinations) is valid JSON whose data rows are exactly the projected table: one row per finite bin of each plotted quantitative axis and per category of the others (plus zero-height end rows for step and area), each carrying that bin's count or profile and, if requested, error. Encodings refer to the columns holding those quantities and are titled with the expressions they show, and in a combination every mark, including error bars, is restricted to its own plot's rows. The text of a plot (repr or str) is source code for the same plot of an unfilled histogram.",
  ["inputs", "configurations"], "all histograms and plotting chains accepted by the API",
  "plot output is not tested",
  ["histbook/vega.py"], [("Plotable1d/2d._data/_vegalite, Combination._collectdata/_fill", "histbook/vega.py")], ["vegalite() dict"])

prop("C22", "DataFrame export reproduces the table with the right index",
  "pandas() produces one row per bin with an index holding, for each axis, the label of that bin and one column per statistic, and the value at each index is that bin's value in table() (or in fraction() when cuts are requested), for any mix of group and fixed axes. Index labels are intervals, integers, categories or pass/fail exactly as the axis defines them.",
  ["inputs", "configurations"], "all histograms, subsets of profiles or cuts",
  "pandas is not installed in the test environment, so no test exports anything",
  ["histbook/export.py"], [("Exportable.pandas", "histbook/export.py")], ["arguments of DataFrame/MultiIndex (recording stand-in)"])

prop("C23", "Grouping keeps each histogram intact under its own category",
  "Hist.group(by, name=hist, ...) gives a histogram whose category for each name has exactly that histogram's contents, keeps all axes, and whose projection without the new axis equals the sum of the inputs; Book.group does so for each member name at every depth. Weighted, filtered and unfilled histograms are grouped likewise, incompatible histograms are rejected, togroup adds to an existing category or creates a new one, and inputs are unchanged.",
  ["inputs", "histories"], "all sets of compatible histograms and books, all names, sequences of group and togroup",
  "tests group a pair of plain filled histograms",
  ["histbook/hist.py", "histbook/book.py"], [("Hist.group/togroup, GenericBook.group", "histbook/hist.py, histbook/book.py")], ["Hist.table", "select/project of the group"])

prop("C24", "Statistical books give linked, independent and validated views",
  "A SamplesBook holds an independent copy of its histograms per sample, so filling one sample never changes another; a view(pattern) contains exactly the histograms whose path matches and filling it fills those very histograms, each as if filled alone. A SystematicsBook only accepts histograms that carry a systematic attachment and are mutually compatible, and can be filled like a book.",
  ["histories", "configurations"], "all samples, member sets, patterns and fill sequences",
  "tests construct the books but hardly fill them through views",
  ["histbook/book.py"], [("SamplesBook, ViewableBook.view, SystematicsBook._changed, assertcompatible", "histbook/book.py")], ["members' tables"])

prop("C25", "Filling from a Spark DataFrame equals filling from arrays",
  "Filling a histogram or book from a Spark DataFrame gives the same contents as filling it with the same rows as arrays.",
  ["inputs", "configurations"], "all histograms and DataFrames",
  "pyspark is not available to the tests",
  ["histbook/calc/spark.py"], [("fillspark", "histbook/calc/spark.py")], ["Hist.table"])

prop("C26", "ROOT export reproduces bin contents and errors",
  "root(axis[, profile]) for one regular (bin) axis, all others projected out, gives a TH1D or TProfile with that binning, name and title, whose bins, including under- and overflow (empty when the axis has none; the nanflow has no counterpart), have the counts and errors, or the profile means, errors and entries, of the projected histogram, which is not modified; unknown axes and several profiles are refused.",
  ["inputs", "configurations"], "all histograms with a regular axis, all choices of axis and profile, flows on or off, weights",
  "ROOT is not available to the tests",
  ["histbook/export.py"], [("Exportable.root", "histbook/export.py")], ["ROOT object"])

prop("C27", "Chains of operations compose, and derived histograms keep the recipe",
  "After any sequence of filling, copying, JSON or pickle round trips, projecting, dropping profiles, selecting, rebinning, adding, scaling, clearing, and fluent weight/filter/systematic calls, a histogram holds exactly what applying these steps to the entries gives, has the axes that follow, and carries the weight, filter, definitions and attachments it had (except what the step was asked to change), so that it is filled further like a histogram made directly with them. weight, filter, systematic and cleared give an unfilled histogram; the histograms the chain went through stay what they were.",
  ["histories", "inputs", "configurations"], "all histogram specifications and all sequences of operations on them",
  "tests apply one operation to one fixed histogram and look at its counts; a lost weight, filter, definition or attachment or a wrong layout only shows when a later step uses it",
  ["histbook/hist.py", "histbook/proj.py", "histbook/axis.py"],
  [("Hist.weight/filter/systematic/copy/cleared/__add__/__mul__", "histbook/hist.py"), ("Projectable.project/drop/select/rebin/rebinby", "histbook/proj.py"), ("_rebinsplit/_rebinfactor/_select of each axis", "histbook/axis.py")], ["Hist.table", "Hist.axis", "Hist.attachment", "Hist.defs", "Hist.fields"])

prop("C28", "Axes and attachments are found under what identifies them",
  "The axis sequence of a histogram lists its group axes, then fixed axes, then profiles, each in the order given; axis[i] counts in it, from either end, axis[expression] is the first axis of that expression however it is spelled or defined, and axis.bin/split/intbin/groupbin/groupby/cut/profile(expression, parameters...) is the first axis of that type, expression and all of the given parameters. Anything else raises IndexError, never another axis. Attachments of histograms and books behave as a dict under attach, detach, has, get (with at most one default) and attachment.",
  ["inputs", "configurations", "histories"], "all combinations of axes, including several axes of one expression, all spellings and parameter subsets, all histories of attachments",
  "tests look up a few axes with one spelling and never have two candidates",
  ["histbook/proj.py", "histbook/hist.py", "histbook/book.py"],
  [("AxisTuple.__getitem__/_findbyclass", "histbook/proj.py"), ("Hist.attach/detach/has/get", "histbook/hist.py"), ("GenericBook.attach/detach/has/get", "histbook/book.py")], ["Hist.axis", "Hist.attachment"])

prop("C29", "Histograms print, compare and index as what they are",
  "Evaluating the repr or str of any histogram (original or derived) gives an unfilled histogram with the same axes, weight, filter and definitions, and evaluating the str of a (nested) Book gives a book of such histograms under the same names. Two histograms are equal exactly when their axes, weight, filter, definitions, attachments and filled-in contents are the same (never equal to anything else), and compatible exactly when they have the same number of non-profile axes with the same types and binning, whatever the expressions, weights or profiles; a histogram made with the axes of another is the one made with equal new axes. Indexing with group keys and bin positions gives the sums of that bin (w*x and w*x**2 per profile, then w and, if weighted or filtered, w**2), shape gives the number of bins of each fixed axis, and groupkeys gives the categories of a group axis in which anything was filled, across all other group axes.",
  ["inputs", "configurations"], "all histogram specifications and contents, all pairs that differ in one respect, all bins, all derivations",
  "tests compare a few pairs of equal histograms and print none; inequality, every option in the text and every index position are not sampled",
  ["histbook/hist.py", "histbook/book.py", "histbook/axis.py"],
  [("Hist.__repr__/__str__/__eq__/compatible/__getitem__/groupkeys/shape", "histbook/hist.py"), ("GenericBook.__str__/__eq__", "histbook/book.py"), ("axis __repr__/__eq__/compatible", "histbook/axis.py")], ["repr", "==", "Hist.compatible", "Hist[...]", "Hist.groupkeys"])

out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
with open(out, "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, (p["id"], len(p["title"]))
        f.write(json.dumps(p) + "\n")
print(len(P))
