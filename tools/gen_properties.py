"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def add(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=None):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            state=[dict(name=a, meaning=b, where=c) for a, b, c in state],
            mechanism=[dict(name=a, where=b) for a, b in mech],
            observe_at=list(observe), hook_needed=hook)))

add("C01", "Concurrent calls are isolated from one another",
 "When several threads call the library at the same time, on separate or shared (read-only) data, grids and option objects, every call returns exactly, bit for bit, what the same call returns when it runs alone. Each call writes exactly the progress text it writes alone, no call blocks for ever, and no thread interleaving produces an error that the call alone would not produce.",
 ["schedules", "inputs", "configurations"],
 "every interleaving of any number of caller threads, every mix of public calls and options, shared or private inputs",
 "The tests are single-threaded; races between factory caches, module state or shared buffers need a particular interleaving.",
 ["neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/_vertsolve.py", "neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/stability.py", "neutralocean/traj.py", "neutralocean/lib.py"],
 [("all working arrays are local to the call", "surface/omega.py, surface/isopycnal.py, traj.py, stability.py"), ("lru_cache'd factories return pure functions", "eos/tools.py, ppinterp/tools.py, surface/_vertsolve.py")],
 [("factory caches", "bounded memo of specialised functions shared by all threads", "eos/tools.py:_make_eos, make_bsq, vectorize_eos; ppinterp/tools.py:make_pp; surface/_vertsolve.py:_make_vertsolve")],
 ["return values", "exceptions", "text written to sys.stdout"])

add("C02", "A call's result depends on its arguments only, whatever was called before",
 "Any call returns bit-for-bit the same result whatever sequence of library calls (successful, failing or interrupted, with any equation of state, interpolant, gravity, reference density, grid or data) the process made before it, and whatever the heap or the random state holds. In particular editing data or a grid in place, or freeing and recreating objects, between calls is fully reflected in the next call, asking the factories for a function always gives one built for exactly the requested parameters, and the progress text too is that of the call alone.",
 ["histories", "inputs", "configurations"],
 "every finite history of calls and in-place edits, including more distinct configurations than any cache holds",
 "Tests run a fixed handful of calls once, with one configuration; stale or colliding cache entries need a particular history.",
 ["neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/surface/_vertsolve.py", "neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/mixed_layer.py", "neutralocean/label.py", "neutralocean/grid/*.py"],
 [("bounded memo keyed on every parameter that shapes the function", "functools.lru_cache(maxsize=10) on _make_eos, make_bsq, vectorize_eos, make_pp, _make_vertsolve"), ("no other module-level mutable state", "whole package")],
 [("factory caches", "as C01", "eos/tools.py, ppinterp/tools.py, surface/_vertsolve.py")],
 ["return values"])

add("C03", "Caller's data is never changed, and results are private to the caller",
 "Apart from the salinity and temperature given to the stabilising routine and the work arrays that the low-level search kernels in bfs.py are documented to update, no argument (array, DataArray with its coordinates and attributes, lazy array, grid, option dict or list) has changed, even temporarily as seen by another thread, when a call returns or raises, including when it is interrupted at any point. What a call returns shares no memory (coordinates of DataArrays aside) with its arguments or with anything the library keeps, so overwriting it changes neither the inputs nor any later result.",
 ["inputs", "configurations", "crash_points", "schedules", "histories"],
 "every public call and input layout, every point at which the call can fail or be interrupted, every observer schedule",
 "Tests never compare inputs before and after, never interrupt a call, and never write into a result.",
 ["neutralocean/lib.py", "neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/mixed_layer.py", "neutralocean/ntp.py", "neutralocean/traj.py", "neutralocean/grid/*.py", "neutralocean/stability.py"],
 [("working copies before mutation", "omega.py: p_init.copy(); lib.py: _xr_in full_like; bfs on np.isfinite(p)"), ("no copy is made of float64 C-contiguous input, so kernels must not write to S, T, P", "lib.py:_contiguous_casts")],
 [], ["arguments after the call", "np.shares_memory(result, argument)"])

add("C04", "A failed or interrupted call surfaces its failure and leaves no trace",
 "If anything a call relies on fails part-way (keyboard interrupt, memory exhaustion, an exception from the equation of state, from the linear or least-squares solver, from the minimiser or from a lazy data read), the call raises (an interrupt as an interrupt, any other failure as itself or wrapped), and never returns a partial or altered result as if it were complete. Afterwards the same call, and every other call in this or any other thread, gives exactly the result it would have given had the failure not happened, and nothing stays locked.",
 ["fault_sequences", "crash_points", "schedules", "configurations"],
 "every fault kind at every point of every call, in any thread, followed by any retry",
 "No test injects a failure.",
 ["neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/lib.py", "neutralocean/stability.py", "neutralocean/traj.py", "neutralocean/mixed_layer.py"],
 [("no handler between a failure and the caller except argument-checking ones", "lib.py:_xrs_in, _process_vert_dim, _process_wrap; isopycnal.py:_check_ref")],
 [], ["exceptions", "results of retries and of other threads"])

add("C05", "The clock affects reported timers only, and the timers account for real time",
 "Surfaces and every diagnostic other than the timers are identical whatever the clock does during the call (stall, jump forwards or backwards, run at any rate), so no amount of elapsed time cuts a computation short or changes it. Under a steady clock, time spent in the matrix solve of iteration i is reported in that iteration's matrix timer and total timer, time spent in the connectivity search and wetting in that iteration's connectivity timer, time spent in its vertical solves in its update timer, nothing being counted in two component timers or in another iteration, each iteration's total is at least the sum of its components, the isopycnal timer covers its vertical solve, and time spent writing progress output or computing neutrality-error diagnostics is in no timer.",
 ["schedules", "fault_sequences", "configurations"],
 "every sequence of clock readings, every placement of delays",
 "Tests run with the machine's clock and never look at a timer.",
 ["neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py"],
 [("time() differences stored in the diagnostics only", "omega.py timer, timer_bfs, timer_mat, timer_update; isopycnal.py timer")],
 [("d['timer*']", "seconds per iteration / phase", "omega.py, isopycnal.py")],
 ["d['timer'], d['timer_bfs'], d['timer_mat'], d['timer_update']"])

add("C06", "Progress output is a faithful side channel",
 "Whether progress is printed never changes a surface or a diagnostic, nothing is printed when output or diagnostics are off, and when both are on the text goes, one line per diagnostics record (the initial surface and each iteration; one per isopycnal surface; one or more per perturbed cast when stabilising), to whatever sys.stdout is at that moment, with the same numbers as the returned diagnostics. If writing fails (full disk, closed pipe, interrupt) the call raises that error rather than losing it, and calling again on a working stream gives the normal result.",
 ["fault_sequences", "configurations", "inputs"],
 "every call with output, every failure of every write, every redirection of sys.stdout before or during the call",
 "Tests never look at the output nor make it fail.",
 ["neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/stability.py"],
 [("print of values already stored in d", "omega.py, isopycnal.py"), ("verbose print per cast", "stability.py")],
 [], ["bytes written to sys.stdout", "return values"])

add("C07", "Stabilising in place is crash-consistent cast by cast and resumable",
 "If stabilising salinity and temperature in place stops early for any reason (interrupt, minimiser failure, failing equation of state, failing output, memory), the failure is raised and every cast is either exactly as the caller gave it or exactly as a complete run would leave it, no later cast being finished before an earlier one. Running it again on what was left brings every unfinished cast to exactly the state an undisturbed run gives and keeps finished ones to within the solver's tolerance, and a cast that already meets the requested stability is never changed. The outcome in the caller's own arrays does not depend on the global random state, on other casts, on memory layout, or on which axis is vertical.",
 ["crash_points", "fault_sequences", "inputs", "histories"],
 "every interruption point and fault, every dataset layout, any number of crash/resume rounds",
 "No test calls this routine.",
 ["neutralocean/stability.py", "neutralocean/lib.py"],
 [("writes to a cast only after its minimisation succeeded", "stability.py: S[c][k:K] += ΔS"), ("privately seeded noise", "stability.py: default_rng(seed=42)")],
 [("S, T", "caller's arrays, mutated in place", "stability.py:stabilize_ST")],
 ["caller's S and T after return or exception", "count_unstable"])

add("C08", "An omega-surface computation can be stopped and resumed without changing it",
 "Stopping an omega-surface computation after any number of iterations and restarting it from the pressure it returned, any number of times (including after restarts that crashed), gives exactly the surface and the concatenated per-iteration diagnostics of the uninterrupted computation, when the stopping tolerances are off and wetting is configured alike for every iteration. The computation performs at least the minimum and at most the maximum number of iterations, stopping in between exactly when a stated tolerance is met, reports one diagnostics record per iteration performed (each equal to the record of a longer run), and always returns exactly the pinned pressure at the pinning cast.",
 ["histories", "crash_points", "configurations", "inputs"],
 "every segmentation of the iterations, every crash between or inside segments, every formulation, interpolant and equation of state",
 "The one omega test runs one uninterrupted call.",
 ["neutralocean/surface/omega.py", "neutralocean/bfs.py", "neutralocean/surface/_vertsolve.py"],
 [("the whole state between iterations is (s, t, p), and s, t are functions of p", "omega.py main loop"), ("p[pin] = pin_p each iteration", "omega.py"), ("diagnostics arrays trimmed to the iterations done", "omega.py")],
 [("s, t, p", "surface between iterations", "omega.py")],
 ["return values of successive calls"])

add("C09", "The process's ambient state is left as found and does not leak into results",
 "On every way out of a call (return, error, interrupt) the process-wide and thread-wide settings are as before it: floating-point error handling, global random states, warning filters, standard streams, environment, working directory, print options, recursion limit, signal handlers, locale-like library options, running threads and open files. Conversely no result depends on the global random states, on whether floating-point or other warnings are shown, printed or ignored, on print options, or on hash seeds.",
 ["histories", "fault_sequences", "configurations", "schedules"],
 "every call, every exit path and fault point, every ambient state",
 "Tests never look at ambient state and run with the defaults.",
 ["neutralocean/ppinterp/pchip.py", "neutralocean/stability.py", "neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/lib.py"],
 [("scoped np.errstate", "ppinterp/pchip.py"), ("private random generator", "stability.py")],
 [], ["np.geterr, random.getstate, np.random.get_state, warnings.filters, sys.std*, os.environ, ..."])

add("C10", "Lazy, chunked inputs give the in-memory result or an error",
 "Giving the salinity, temperature, pressure or initial surface as lazily loaded, chunked DataArrays gives exactly the result of giving the same values in memory, whatever the chunking and in whatever order, on whatever schedule and how ever slowly the chunks are read. If reading any chunk fails, at any read, the call raises and never computes with missing or partial data, the lazy inputs stay lazy and usable, and calling again once reads succeed gives the normal result.",
 ["schedules", "fault_sequences", "configurations", "inputs"],
 "every chunking, every task order, every failing read",
 "Tests use in-memory numpy arrays only.",
 ["neutralocean/lib.py", "neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/mixed_layer.py", "neutralocean/traj.py"],
 [("conversion of DataArrays to numpy in one place", "lib.py: xr_to_np, _xrs_in, _process_casts"), ("results wrapped in in-memory DataArrays", "lib.py:_xr_out")],
 [], ["return values", "whether inputs are still lazy"])

add("C11", "Losing some data never disturbs the results elsewhere, nor stops the computation",
 "If any set of casts is lost (all their values NaN), or casts lose the deepest part of their data, the results of isopycnal surfaces (not pinned there), mixed layer, interpolation, neutrality errors, instability counts and stabilisation in every other cast are bit-for-bit what they were, a lost cast itself is NaN, a neutral trajectory is unchanged before the first affected cast and NaN after a lost one, and a neutral surface computed from a pinning cast is unchanged by losses in water not connected to it. Every call still ends within a bounded amount of work, and salinity, temperature and pressure on a surface are missing together.",
 ["fault_sequences", "inputs", "configurations"],
 "every pattern of lost casts and truncated casts, on every kind of call and grid",
 "Tests use one fixed land mask and never compare against the undamaged result.",
 ["neutralocean/surface/_vertsolve.py", "neutralocean/bfs.py", "neutralocean/traj.py", "neutralocean/mixed_layer.py", "neutralocean/stability.py", "neutralocean/ppinterp/*.py", "neutralocean/surface/omega.py"],
 [("each cast is solved on its own", "_vertsolve.py:_vertsolve, stability.py"), ("valid-range detection per cast", "ppinterp/lib.py:valid_range_1_two"), ("connected-component search masks dry casts", "bfs.py")],
 [], ["return values"])

add("C12", "The example dataset loader yields only complete, verified data or an error",
 "Loading the example ocean dataset returns only data decoded from files whose content matches the published checksums: a failed, truncated or corrupted download, a full disk, a crash at any point or a damaged cached file leads to an error or to a fresh download, never to wrong or partial data being returned. Once the faults stop, loading again succeeds with the correct data, an intact cached copy is used without downloading again, and no file stays open.",
 ["fault_sequences", "crash_points", "histories"],
 "every sequence of network faults, disk faults and crashes over repeated loads",
 "Tests never load the dataset (it needs the network).",
 ["neutralocean/examples/load_OCCA.py"],
 [("pooch.retrieve with known_hash", "examples/load_OCCA.py"), ("load() then close()", "examples/load_OCCA.py")],
 [("pooch cache directory", "downloaded files", "pooch.os_cache('pooch')")],
 ["return value", "cache directory", "open file descriptors"])

add("C13", "A call made while another is suspended is an ordinary call, and disturbs none",
 "A library call made while another library call is suspended part-way, whether in the same thread (from a signal handler, from the output stream being written to, from the lazy array being read) or in a forked child process forked by that thread or by another one at any moment, behaves exactly as when made alone: it ends, with the same result bit for bit or the same error and the same progress text. The suspended call then continues and ends exactly as if it had not been suspended.",
 ["schedules", "crash_points", "histories", "configurations"],
 "every point at which a call can be suspended, every call made meanwhile, every nesting depth, every moment of a fork",
 "No test calls the library from inside a call, nor forks.",
 ["neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/surface/_vertsolve.py", "neutralocean/lib.py", "neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/stability.py", "neutralocean/traj.py", "neutralocean/bfs.py"],
 [("all working arrays are local to the call, none to the thread or the process", "surface/omega.py, surface/isopycnal.py, traj.py, stability.py, mixed_layer.py"), ("no lock of the library's own is held while Python code runs", "whole package")],
 [("factory caches", "bounded memo of specialised functions", "eos/tools.py, ppinterp/tools.py, surface/_vertsolve.py")],
 ["return values", "exceptions", "text written to sys.stdout", "whether each call ends"])

add("C14", "Finished calls hold nothing, and a long-lived process does not grow",
 "Once a call has returned, raised or been interrupted and the caller has dropped what it passed in and got back, the library holds none of it: the arrays, DataArrays, grids and exceptions concerned can be freed at once. Memory the library itself keeps stays bounded however many calls the process makes, with however many different data, shapes, options, equations of state and failures: no data array made during a call outlives it unless the caller holds it, and only a bounded number of specialised functions is kept.",
 ["histories", "fault_sequences", "configurations"],
 "every history of calls, any mixture of successes, failures and interrupts, any number of distinct configurations",
 "Tests make a few calls in a short-lived process and never look at what stays behind.",
 ["neutralocean/eos/tools.py", "neutralocean/ppinterp/tools.py", "neutralocean/surface/_vertsolve.py", "neutralocean/surface/omega.py", "neutralocean/surface/isopycnal.py", "neutralocean/lib.py", "neutralocean/traj.py", "neutralocean/mixed_layer.py", "neutralocean/label.py", "neutralocean/stability.py", "neutralocean/bfs.py", "neutralocean/grid/graph.py"],
 [("bounded memo", "functools.lru_cache(maxsize=10) on _make_eos, make_bsq, vectorize_eos, make_pp, _make_vertsolve"), ("no module-level container is written to by a call", "whole package")],
 [("factory caches", "the only thing kept between calls", "eos/tools.py, ppinterp/tools.py, surface/_vertsolve.py")],
 ["weak references to arguments and results", "allocated blocks whose origin is the library"])

# ---- properties this family cannot decide: pure functions of their input ----
PURE = "pure function of its input: no schedule, clock, fault or interleaving in it"
def na(id, title, st, over, text, why, files, mech):
    add(id, title, st, over, text, why, files, mech)
na("C20", "Isopycnal surfaces are isosurfaces",
   "Wherever a potential-density or specific-volume-anomaly surface is not NaN, the defining quantity there equals the isovalue to within what the vertical tolerance allows, salinity and temperature are the interpolated values at the returned pressure, the pinning cast is met exactly, and NaN is returned only where the surface does not cross the cast.",
   ["inputs"], "every stratified dataset and option", "Two fixed datasets are tested.", ["neutralocean/surface/isopycnal.py", "neutralocean/surface/_vertsolve.py"], [("bracketing then Brent", "surface/_vertsolve.py")])
na("C21", "Omega surfaces are at least as neutral as what they start from",
   "The area-weighted neutrality error of the returned omega surface is a (local) minimum given the grid geometry, no larger than that of the initial surface over the same casts.",
   ["inputs"], "every dataset", "One dataset is tested.", ["neutralocean/surface/omega.py"], [("global matrix problem", "surface/omega.py")])
na("C22", "Neutral tangent plane links and trajectories are neutral",
   "The point returned on a cast has the same potential density, referenced to the mid-pressure, as the bottle it came from, to within the tolerance, and NaN is returned only if there is none near.",
   ["inputs"], "every bottle and cast", "Not tested.", ["neutralocean/traj.py"], [("root finding", "traj.py")])
na("C23", "Interpolants pass through the data and preserve monotonicity",
   "Linear and PCHIP interpolants reproduce the data at the knots, PCHIP never overshoots, on-the-fly and precomputed variants agree, and evaluation outside the valid range is NaN.",
   ["inputs"], "every profile", "Three random profiles are tested.", ["neutralocean/ppinterp/ppinterp.py", "neutralocean/ppinterp/pchip.py", "neutralocean/ppinterp/linear.py"], [("coefficients", "ppinterp/*.py")])
na("C24", "Equation-of-state derivatives match the equation of state",
   "The derivative functions equal the partial derivatives of the corresponding equation of state, and the Boussinesq versions equal the originals at the hydrostatic pressure.",
   ["inputs"], "every (S, T, P)", "Check values at few points.", ["neutralocean/eos/*.py"], [("closed forms", "eos/*.py")])
na("C25", "Grid builders list every adjacency once with its own geometry",
   "Each grid builder lists every pair of adjacent water columns exactly once, pairs it with the distances of that interface, and mapping edge data back to maps inverts it.",
   ["inputs", "configurations"], "every shape, periodicity and topology", "Only one rectilinear grid is used by tests.", ["neutralocean/grid/rectilinear.py", "neutralocean/grid/tripolar.py", "neutralocean/grid/xgcm.py", "neutralocean/grid/graph.py"], [("index arithmetic", "grid/*.py")])
na("C26", "Root finder brackets and converges",
   "Given a sign change the root finder returns a point within tolerance of a root and never leaves the bracket; the bracketing search finds a sign change if its scan passes one.",
   ["inputs"], "every continuous function", "A few functions are tested.", ["neutralocean/fzero.py"], [("Brent's method", "fzero.py")])
na("C27", "Mixed layer and Veronis density match their definitions",
   "The mixed-layer pressure is where potential density exceeds the near-surface value by the threshold, and the Veronis density is the reference potential density plus the integral of the vertical gradient of locally referenced potential density, to the accuracy of the step.",
   ["inputs"], "every cast", "Not tested.", ["neutralocean/mixed_layer.py", "neutralocean/label.py"], [("interpolation", "mixed_layer.py"), ("trapezoidal integration", "label.py")])
na("C28", "Neutrality-error norms are the stated area-weighted norms",
   "The reported error norms are the area-weighted root mean square and mean absolute value of the per-edge neutrality errors, antisymmetric under edge reversal and independent of edge order.",
   ["inputs"], "every surface and grid", "Not tested directly.", ["neutralocean/ntp.py"], [("sums over edges", "ntp.py")])

here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
with open(os.path.join(here, "properties.jsonl"), "w") as f:
    for p in P:
        assert len(p["title"]) <= 80, p["title"]
        f.write(json.dumps(p, ensure_ascii=False) + "\n")
print(len(P))
