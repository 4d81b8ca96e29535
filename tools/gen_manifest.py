"""Writes MANIFEST.json from the list of properties and the harness configuration."""
import json, os, sys
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, os.path.join(HERE, "harness"))
import config

TECH = {
 "C01": "property-based testing, record-by-record reference model of bin placement",
 "C02": "property-based testing, record-by-record reference model of the weighted sums",
 "C03": "property-based testing, metamorphic (presentations of one data set) plus reference model",
 "C04": "property-based testing, algebraic laws plus reference model",
 "C05": "stateful property-based testing over object histories, every object re-observed after each step",
 "C06": "grammar-based expression fuzzing, differential against ordinary Python evaluation with error bounds",
 "C07": "grammar-based expression fuzzing, metamorphic (respellings) and order-relation laws",
 "C08": "grammar-based expression fuzzing, differential against ordinary Python evaluation",
 "C09": "property-based testing, metamorphic (select = fill of the selected records) against the reference model",
 "C10": "property-based testing, metamorphic (project = fill with fewer axes) against the reference model",
 "C11": "property-based testing, metamorphic (rebin = fill with merged bins) against the reference model",
 "C12": "property-based testing, metamorphic (drop = histogram without the profile) against the reference model",
 "C13": "property-based testing, table options against the reference model",
 "C14": "property-based testing, fractions and their errors against independent formulas on the reference model",
 "C15": "property-based testing, round trips through JSON text, pickle and copy",
 "C16": "stateful property-based testing, differential between a book and twins filled alone",
 "C17": "stateful property-based testing against a nested ordered-dict model",
 "C18": "property-based testing, algebraic laws of books against the reference model",
 "C19": "stateful property-based testing with injected faulty fills; before/after comparison of state and inputs",
 "C20": "property-based testing of axis values: reference labels, round trips and single-parameter mutations",
 "C21": "property-based testing, Vega-Lite rows interpreted and compared with the reference model",
 "C22": "property-based testing, recorded DataFrame construction compared with the reference model",
 "C23": "stateful property-based testing of group/togroup against the reference model",
 "C24": "stateful property-based testing of statistical books against independent models",
 "C27": "property-based testing, stateful: random chains of operations compared after each step with a record-by-record reference model",
 "C29": "property-based testing: evaluation round trips of texts, equality and compatibility against the specifications, indexing against a record-by-record model",
 "C28": "property-based testing, lookups compared with a search in the specification; attachment histories against a dict",
 "C26": "property-based testing, bins of a stand-in for TH1D/TProfile read back and compared with the reference model",
}
NA = {
 "C25": "pyspark is not installed and cannot be; its column expression engine (the JVM) is what this property is about, and a stand-in written here would decide only itself",
}
NOTE = "Holds on every generated case (no proof beyond them): tens of thousands of small structured inputs per run, shrunk and replayed in a fresh process before being reported. Trusts the reference model in harness/ and numpy."

props = [json.loads(l)["id"] for l in open(os.path.join(HERE, "properties.jsonl"))]
m = {"version": 1, "setup_cmd": "python3-vt harness/setup.py", "checks": [], "not_applicable": []}
for p in props:
    if p in config.CONFIG:
        m["checks"].append({"property": p, "quick_cmd": "python3-vt harness/driver.py %s quick" % p, "thorough_cmd": "python3-vt harness/driver.py %s thorough" % p,
                            "technique": TECH[p], "level": "exploration", "level_note": NOTE})
    else:
        m["not_applicable"].append({"property": p, "reason": NA.get(p, "the check is being built")})
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w"), indent=1)
open(os.path.join(HERE, "MANIFEST.json"), "a").write("\n")
