"""Per property: number of cases per tier, the rule by which a case counts as non-trivial, assumptions."""

CONFIG = {
    "C01": dict(quick=6000, thorough=150000, rule="random histogram (1-4 axes of any kind and options) and up to 30 records; non-trivial: at least two records and at least one lands in a bin"),
}
CONFIG["C02"] = dict(quick=6000, thorough=150000, rule="random histogram with weights, filters, definitions and up to 3 profiles, 1-3 fills; non-trivial: at least two records, a non-empty bin, and a weight, filter or profile")
CONFIG["C03"] = dict(quick=4000, thorough=100000, rule="random histogram and data presented in 2-5 different ways; non-trivial: at least two records, a non-empty bin")
CONFIG["C04"] = dict(quick=2500, thorough=60000, rule="three random fillings (or none) of one histogram specification, a factor and an incompatible histogram; non-trivial: the first two both hold something")
CONFIG["C05"] = dict(quick=3000, thorough=80000, rule="random sequence of deriving and changing operations on up to 20 histograms and books, every object compared after each step; non-trivial: at least one object was derived and one change was made")
CONFIG["C06"] = dict(quick=6000, thorough=200000, rule="1-4 random expressions (to depth 4, sharing sub-expressions and definitions) used as profiles, weights, binned quantities and where conditions over 1-5 records, alone and in a book, or an unsupported expression; non-trivial: at least one value was decided (ordinary evaluation is finite and not decided by rounding) or an expression was refused")
CONFIG["C07"] = dict(quick=6000, thorough=200000, rule="two different spellings of one random polynomial/quotient/call/formula plus a mutated one, or a population of 3-7 expressions compared pairwise and in triples; non-trivial: the two spellings are different texts, or at least two expressions were compared")
CONFIG["C08"] = dict(quick=5000, thorough=150000, rule="1-3 random conditions (and/or/not to depth 3 over comparisons, chains, sets, strings, boolean fields, definitions) as cuts, filters, where conditions and weights over 1-7 records, alone and in a book; non-trivial: some condition is true for a record and one is false")
CONFIG["C09"] = dict(quick=6000, thorough=150000, rule="random histogram and selection (a comparison on one axis at, near or off an edge, a conjunction, a disjunction, or one nothing can decide); non-trivial: every case (accepted ones are compared bin by bin, refused ones must be refusable)")
CONFIG["C10"] = dict(quick=5000, thorough=150000, rule="random histogram (1-4 axes, profiles, weights) and subset of its axes given in various ways; non-trivial: at least one axis is removed and at least two bins hold entries")
CONFIG["C11"] = dict(quick=5000, thorough=150000, rule="random histogram with a rebinnable axis at any position, a factor or subset of edges; non-trivial: fewer (or wider) bins result and some bin holds something")
CONFIG["C12"] = dict(quick=4000, thorough=120000, rule="random histogram with 1-4 profiles and a subset to drop; non-trivial: some bin holds something")
CONFIG["C13"] = dict(quick=5000, thorough=150000, rule="random histogram and 1-3 requests for tables (profiles in any order, every option); non-trivial: some bin holds something")
CONFIG["C14"] = dict(quick=4000, thorough=120000, rule="random histogram with 1-3 cuts and 1-3 requests for fractions (subsets of cuts, error methods, levels); non-trivial: some bin has a positive count")
CONFIG["C15"] = dict(quick=4000, thorough=120000, rule="random histogram or nested book (attachments, definitions, filled, scaled or not), saved and restored through JSON text, pickle or copy and filled further; non-trivial: some histogram holds something")
CONFIG["C16"] = dict(quick=4000, thorough=80000, rule="random history of setting, deleting, replacing, copying members (whose expressions share parts) at any depth and filling, against twins that are filled alone; non-trivial: at least two members, at least one holding something")
CONFIG["C17"] = dict(quick=3000, thorough=100000, rule="random history of assignments, deletions, lookups, wildcards, pop/setdefault/update and changes inside nested books against a nested ordered dict, everything compared after each step; non-trivial: at least two steps that did something")
CONFIG["C18"] = dict(quick=2000, thorough=60000, rule="three random nested books over common and one-sided members, sums, scalings, copies; non-trivial: the first holds something and the second has members")
CONFIG["C19"] = dict(quick=2500, thorough=80000, rule="random history of fills of 1-3 histograms, alone or in a (nested) book, with fills that must be refused (missing fields, different lengths, values of a wrong type) and other refused calls at any point, everything observed before and after; non-trivial: at least one accepted and one refused call")
CONFIG["C20"] = dict(quick=5000, thorough=150000, rule="random axis of any type, one with a single parameter changed, an invalid one, and probe values at, next to and off its edges; every case is non-trivial")
CONFIG["C21"] = dict(quick=3000, thorough=80000, rule="random histograms plotted by random chains (bar, step, area, line, marker, heatmap; overlay, stack, beside, below; errors, profiles, log scales, normalization) and combinations of up to nine of them; the Vega-Lite document is interpreted (filters, calculations, encodings) and what each mark shows compared with the projected table; non-trivial: something non-zero is drawn")
CONFIG["C22"] = dict(quick=5000, thorough=150000, rule="random histogram (1-4 axes of any type, profiles, weights) and 1-3 exports (subsets of profiles or cuts, options); the DataFrame construction is recorded by a stand-in and compared with the table bin by bin; non-trivial: some exported value is not zero", assumptions=["the stand-in for pandas behaves like pandas.MultiIndex.from_arrays, Interval and DataFrame for the arguments it is given"])
CONFIG["C23"] = dict(quick=3000, thorough=80000, rule="random histograms (all axis types, profiles, weights that may differ, unfilled) grouped under random names, then a history of togroup calls, fills, copies and scalings of the group; or books of such histograms at several depths; non-trivial: some member holds something")
CONFIG["C24"] = dict(quick=3000, thorough=80000, rule="a history of fills through views (fresh and old ones, random wildcards), of samples and of single members, changes, copies and fills of the originals, on a SamplesBook (possibly inside a ChannelsBook), each histogram compared with a model after every step; or a history of changes of a SystematicsBook, each accepted or refused as the rule says; non-trivial: something was filled")
CONFIG["C26"] = dict(quick=4000, thorough=120000, rule="random histogram with at least one regular axis (others projected out), flow bins on and off, profiles, weights, scalings; exported to a stand-in for ROOT's TH1D and TProfile, whose bins are read back with ROOT's rules and compared with a record-by-record model; non-trivial: something non-zero is exported", assumptions=["the stand-in for ROOT stores and computes bins like TH1D and TProfile (ROOT 6) for the calls it is given"])
CONFIG["C27"] = dict(quick=3000, thorough=80000, rule="random histogram (1-4 axes, profiles, weight, filter, definitions, attachments) and a chain of 2-9 operations (fills, copies, JSON and pickle round trips, weight/filter/systematic, projections, drops, rebinnings, selections, sums, scalings, attachments), everything compared with a record-by-record model after each step, the earlier histograms again at the end; non-trivial: at least two derivations, and something was filled")
CONFIG["C28"] = dict(quick=4000, thorough=100000, rule="random histogram, possibly with several axes of one expression, 2-6 lookups (by position, respelled expression, type and any subset of parameters, right or wrong) and a history of attachments; every case is non-trivial")
CONFIG["C29"] = dict(quick=3000, thorough=100000, rule="random histogram (filled or not, definitions, attachments, weights) and one that differs from it in one respect; texts evaluated, pairs compared for equality and compatibility, every bin and category looked up by index, up to two derivations; non-trivial: every case")
