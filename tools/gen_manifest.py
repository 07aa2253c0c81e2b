"""Writes MANIFEST.json from properties.jsonl and mon/meta.py."""
import json, os, sys

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
sys.path.insert(0, HERE)
from mon.meta import META

TECH = {
    "C01": "runtime monitoring: per-superpixel reference oracle on the polarization parameters of observed images",
    "C02": "runtime monitoring: state monitor over random operation histories (data against Stokes)",
    "C03": "runtime monitoring: snapshot monitor of every live image over random histories and in-place disturbances",
    "C04": "runtime monitoring: reference oracle on observed split, merge and demosaic results",
    "C05": "runtime monitoring: block-sum oracle and conservation monitor on observed rebinnings",
    "C06": "runtime monitoring: displacement oracle on observed shifts, there-and-back monitor",
    "C07": "runtime monitoring: per-family interpolation and permutation oracles with family-tagged pixels",
    "C08": "runtime monitoring: formula oracles on observed corrections, repeated on a dirtied heap",
    "C09": "runtime monitoring: pixelwise oracle on observed arithmetic, repeated on a dirtied heap",
    "C10": "runtime monitoring: oracle on images read from generated file sets, with bad members injected",
    "C11": "runtime monitoring: independent read-back of every file written and a monitor of the folder's content",
    "C12": "runtime monitoring with fault injection at every file-system call of observed conversions (errors, short writes, kills)",
    "C13": "runtime monitoring: bit-level oracle on decoded camera files, length faults",
    "C14": "runtime monitoring: superpixel-product oracle on observed demodulations",
    "C15": "runtime monitoring: simulated instrument and recovery oracle over calibrations of the real code",
    "C16": "runtime monitoring with injected worker faults (raise, kill, delay) and file-by-file comparison across processor grids",
    "C17": "runtime monitoring: flag and fallback monitor over calibrations with injected bad superpixels",
    "C18": "runtime monitoring: oracle on demodulators read from generated and damaged tensor folders",
    "C19": "runtime monitoring: numerical-derivative oracle on observed error maps",
    "C20": "runtime monitoring: membership oracle on observed selections and masks",
    "C21": "runtime monitoring: ring-statistics oracle and metamorphic monitors on the filter's results",
    "C22": "runtime monitoring: ground-truth oracle on simulated occulters",
    "C23": "runtime monitoring: geometric trace checker over the sampled points",
    "C24": "runtime monitoring: modular-arithmetic oracle on observed normalisations",
    "C25": "bounds-checking sanitizer (NUMBA_BOUNDSCHECK), canary margins around array arguments, heap-poison differential digests",
    "C26": "runtime monitoring: digest comparison of an operation alone, after others and in concurrent threads; argument digests",
    "C27": "runtime monitoring: state monitor over random histories (header, size, orientation)",
    "C28": "runtime monitoring: 2x2-median oracle on observed hot-pixel maps and cleanings",
    "C29": "runtime monitoring: matrix-product oracle on observed calibrations, order-permutation differential",
    "C30": "runtime monitoring: pixel and keyword oracle with family-tagged pixels and an embedded sun centre",
    "C31": "runtime monitoring: inspection of the artists created by every display function",
    "C32": "runtime monitoring: formula oracles and metamorphic monitors on observed helper results",
}
NOTE = "Every execution observed in this run agreed with an oracle written independently of the code; what was observed is counted in the evidence file. Inputs, histories and schedules not generated are not covered."


def main():
    props = [json.loads(l) for l in open(os.path.join(HERE, "properties.jsonl"))]
    checks, na = [], []
    for p in props:
        i = p["id"]
        if i not in META or not os.path.exists(os.path.join(HERE, "mon/props", i.lower() + ".py")):
            na.append(dict(property=i, reason="the monitor for this property is still being built"))
            continue
        m = META[i]
        note = NOTE + "".join(" Assumes: " + a + "." for a in m.get("assumptions", []))
        checks.append(
            dict(
                property=i,
                quick_cmd=f"bash run.sh {i} quick",
                thorough_cmd=f"bash run.sh {i} thorough",
                evidence_file=f"evidence/{i}.json",
                technique=TECH[i],
                level=m.get("level", "exploration"),
                level_note=note,
            )
        )
    out = dict(version=1, setup_cmd="bash setup.sh", checks=checks, not_applicable=na,
               notes="Pure Python package: nothing is built; every check compiles /repo's current sources in its own processes (byte code is neither read nor written) and the numba kernels are compiled at run time. No hooks in /repo.")
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(out, f, indent=1)
        f.write("\n")


main()
