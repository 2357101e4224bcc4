"""Writes /verif/MANIFEST.json."""
import json, os
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
props = [json.loads(l) for l in open(os.path.join(here, "properties.jsonl"))]
T = {
 "C01": ("seeded scheduling of simulated caller threads, bit-for-bit against each call alone", "threads switch between Python lines or bytecodes; kernels interpreted and atomic"),
 "C02": ("seeded call histories with edits, faults and heap poisoning, against a fresh process", "histories up to 26 calls (interpreted lane) and a few with compiled kernels"),
 "C03": ("simulated observer thread at every line plus fault injection; memory-sharing and overwrite checks", "observation between Python lines"),
 "C04": ("fault injection at seeded points of real calls, then retries, against a fresh process", "one or two faults per run at Python lines, kernel calls, solver, minimiser, reads, writes"),
 "C05": ("simulated clock with stalls and jumps; exact accounting of simulated time", "time passes only where the simulator says"),
 "C06": ("simulated output stream with failing and redirected writes, against the silent call", "numbers compared to printed precision"),
 "C07": ("crash and resume of in-place stabilisation at seeded points, cast by cast against an undisturbed run", "crashes between Python lines or in seam calls"),
 "C08": ("seeded segmentation of iterations with crashed segments, against the uninterrupted run", "mixed layer removal off where segments are compared"),
 "C09": ("seeded ambient states and faults; ambient state compared around every call; other hash seeds", "listed kinds of ambient state"),
 "C10": ("simulated dask scheduler and storage with slow and failing reads, against in-memory input", "storage reads through dask graphs or lazily indexed arrays"),
 "C11": ("injected data loss during a session, cast by cast against the undamaged call; work budget", "salinity and temperature lost together"),
 "C13": ("simulated suspension of calls at seeded lines, bytecodes, writes and reads, with calls nested there or made in a process forked there, against each call alone", "interpreted lane; the call made meanwhile runs to its end before the suspended one continues; fork on Linux"),
 "C14": ("seeded long call histories with faults in one process, with weak references and allocation accounting as the oracle", "interpreted lane; blocks of 64 bytes or more; growth judged over at most 12 rounds; up to 600 functions may be kept"),
 "C12": ("simulated network, disk and processes with crashes and cache damage, against a first clean load", "small stand-in files hashing to the published checksums"),
}
NA = "a pure function of its input: no schedule, clock, I/O, crash or fault takes part, so there is nothing for a simulator to vary; input generation against a numerical oracle would be another technique"
checks = [dict(property=k, quick_cmd="./check.py %s quick" % k, thorough_cmd="./check.py %s thorough" % k,
               technique="deterministic simulation with fault injection: " + a, level="exploration",
               level_note="Seeded search, not exhaustive; runs the real library code. Assumes: %s." % b) for k, (a, b) in T.items()]
m = dict(version=1, setup_cmd="/opt/venv/bin/python -c 'import neutralocean, numba, xarray, dask, pooch'",
         hooks=dict(guard="NOSIM_LANE (unused by /repo: no hook was needed)", enable="nothing to enable: every seam is put in place from /verif before neutralocean is imported", source_commits=[]),
         checks=checks,
         not_applicable=[dict(property=p["id"], reason=NA) for p in props if p["id"] not in T],
         notes="One seed is one run: VERIF_SEED. Replay a violation with ./check.py --replay FILE (exit 1 when it reproduces). See DESIGN.md.")
assert set(T) <= {p["id"] for p in props}
json.dump(m, open(os.path.join(here, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)
