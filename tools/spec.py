#!/usr/bin/env python3
"""Single source of properties.jsonl and MANIFEST.json (run: python3 tools/spec.py)."""
import json
import os

ROOT = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
P = []


def prop(id, title, statement, over, qtext, why, files, mech, state=None, observe=None, technique=None,
         level="exploration", note=None, na=None):
    P.append(dict(id=id, title=title, statement=statement, over=over, qtext=qtext, why=why, files=files, mech=mech,
                  state=state, observe=observe, technique=technique, level=level, note=note, na=na))


SIM = "deterministic simulation with fault injection: "

prop("S01", "Every proof returned is exact and valid, whatever the numeric solvers do",
     "Whenever the prover returns a solution for a polynomial under given inequality and equality constraints, the returned "
     "expression equals that polynomial exactly (as rational functions, modulo the given equality names) and is visibly non-negative wherever "
     "the constraints hold: sums and products of squares, non-negative numbers and the given constraint expressions, over a multiplier that is not zero. A squared factor of a constraint counts as extracted (-3*(x+y)**2*z >= 0 means -z >= 0), as documented. "
     "This holds also when the linear, semidefinite or root-finding back end is missing, fails, or returns inaccurate or useless numbers; "
     "in that case the answer may be 'no solution', but never a wrong proof, and never an exception caused by the back end.",
     ["inputs", "fault_sequences", "configurations"],
     "every polynomial and constraint set accepted by the prover, every choice and order of methods, every sequence of answers/failures of the numeric back ends",
     "Tests compare a handful of fixed polynomials with a healthy solver; the certificate must be right for every problem and for every answer a floating-point "
     "solver may give, including wrong ones. Existing stable tests never run a solver that fails.",
     ["triples/core/sum_of_squares.py", "triples/core/linsos/linsos.py", "triples/core/linsos/correction.py", "triples/core/structsos",
      "triples/core/sdpsos/sdpsos.py", "triples/core/symsos", "triples/core/shared.py", "triples/utils/roots"],
     [{"name": "rational correction of LP answers", "where": "triples/core/linsos/correction.py:linear_correction"},
      {"name": "rationalisation of SDP answers", "where": "triples/sdp/rationalize.py"},
      {"name": "structural coefficient case analysis", "where": "triples/core/structsos"},
      {"name": "homogenisation / constraint renaming of inputs and outputs", "where": "triples/core/shared.py:sanitize_input"}],
     observe=["return value and exceptions of triples.core.sum_of_squares.sum_of_squares and of the four method functions"],
     technique=SIM + "seeded problems x seeded fault plans on LP/SDP/root-finding seams; independent exact certificate checker as oracle",
     note="Sampled problems and fault plans; identity and non-negativity of every certificate are decided exactly by an oracle independent of the code under test.")

prop("S02", "A semidefinite problem that reports success holds an exact feasible solution",
     "When solving a semidefinite problem (or registering a candidate point) reports success, the stored solution satisfies the problem exactly: "
     "every matrix is the stated affine function of the stored parameters, satisfies every given equation, equals its reported exact decomposition and is positive semidefinite; every parent problem it was reduced from holds "
     "the corresponding exact solution. A solve that finds nothing reports failure (False or the documented rationalisation error) whatever the back end answered, never uses a back end that is not installed, and neither erases nor corrupts the solutions stored earlier, in any sequence of reductions, solves, registrations and back-end failures. (Does not apply once the caller allowed numerical answers.)",
     ["histories", "fault_sequences", "inputs"],
     "every problem data, every sequence of reductions (null space, column space, symmetry, diagonals, deparametrisation), solves and registrations, every back-end answer or failure",
     "The state is spread over a chain of parent and child problems; only histories with failing solves in between expose a stale or inconsistent link, and tests check one reduction each.",
     ["triples/sdp/dual.py", "triples/sdp/primal.py", "triples/sdp/abstract.py", "triples/sdp/transform.py", "triples/sdp/rationalize.py", "triples/sdp/arithmetic.py", "triples/sdp/backend"],
     [{"name": "register_y / propagate_to_parent", "where": "triples/sdp/abstract.py, triples/sdp/transform.py"},
      {"name": "rationalisation and exact decomposition", "where": "triples/sdp/rationalize.py"}],
     state=[{"name": "y, S, decompositions", "meaning": "the stored solution of one problem in the chain", "where": "triples/sdp/abstract.py"}],
     observe=["SDPProblem / SDPPrimal: solve, register_y, y, S, decompositions, as_params"],
     technique=SIM + "seeded operation histories with injected back-end answers and failures; invariant checked exactly after every operation",
     note="Sampled histories up to a bounded length; invariants are decided in exact rational arithmetic by the harness.")

prop("S03", "Every accepted web request gets exactly one final answer, to its own session",
     "Every accepted solve request is answered by exactly one final solve event, delivered only to the session that asked and carrying that request's timestamp; "
     "the same holds for the preparation (coefficients) and root-finding events a request asks for. This holds for any number of concurrent sessions, any interleaving, "
     "any disconnect, and also when parsing, solving, root finding or a numeric back end fails. A solve event marked successful carries a proof that is exact for the polynomial of that request.",
     ["schedules", "fault_sequences", "inputs", "histories"],
     "every set of sessions and requests, every interleaving of the server's background tasks, every disconnect point and back-end fault",
     "No test starts the server; who gets an answer and how often depends on thread interleavings and on failures in background tasks.",
     ["web_main.py", "triples/gui/sos_manager.py"],
     [{"name": "request handling and background tasks", "where": "web_main.py:preprocess, findroot, sum_of_squares"},
      {"name": "per-session rooms", "where": "web_main.py:on_connect, on_disconnect"}],
     observe=["events emitted through the socket server per session"],
     technique=SIM + "all server tasks run under a seeded scheduler that preempts at source lines; simulated sessions, disconnects and solver faults; event history checked",
     note="Sampled schedules and faults; the Flask/Socket.IO transport is a stub, request handlers and solver are the real code.")

prop("S04", "Concurrent requests are answered as if each were served alone",
     "The content of every event a session receives (coefficients, images' inputs, roots, proofs, displayed texts) is the same as if its request had been the only one the server ever served. "
     "Other sessions' concurrent requests, their failures and their timing never change it.",
     ["schedules", "histories", "inputs"],
     "every set of concurrent requests and every interleaving of their tasks",
     "Shared module-level state (printing style, caches, option dictionaries) shows only under particular interleavings of two requests; no test runs two.",
     ["web_main.py", "triples/gui/sos_manager.py", "triples/utils/expression/solution.py", "triples/utils/expression/cyclic.py", "triples/utils/text_process.py"],
     [{"name": "request-local state passed through keyword arguments", "where": "web_main.py"},
      {"name": "printing hooks of cyclic sums", "where": "triples/utils/expression/cyclic.py"}],
     state=[{"name": "module-level defaults, caches and printing flags", "meaning": "state shared by all requests"}],
     observe=["events emitted per session, compared with a run of the same request alone in a fresh process"],
     technique=SIM + "seeded line-level preemption of concurrent requests, refinement against the one-request-in-a-fresh-process model",
     note="Sampled schedules; line-level (not bytecode-level) preemption in repository code.")

prop("S05", "Rendering a proof depends only on the proof, and reads back as the same proof",
     "The LaTeX, text and formatted renderings of a solution, and of expressions with cyclic sums and products, depend only on the object rendered and the stated options: never on what was rendered before, "
     "concurrently, or on a rendering that was interrupted by an error. Rendering changes no global printing style, and the formatted text, read by the library's own parser, is again an exact proof of the same problem.",
     ["schedules", "histories", "inputs", "crash_points"],
     "every solution object, every history and interleaving of renderings, every interruption point inside a rendering",
     "Tests render one expression in one order; a leaked global printing style needs two renderings interleaved or one interrupted.",
     ["triples/utils/expression/solution.py", "triples/utils/expression/cyclic.py", "triples/utils/text_process.py"],
     [{"name": "printing of cyclic sums", "where": "triples/utils/expression/cyclic.py"},
      {"name": "solution renderings", "where": "triples/utils/expression/solution.py"}],
     observe=["str_latex, str_txt, str_formatted, to_string, str(), sympy.latex of results"],
     technique=SIM + "seeded preemption and interruption inside renderings, compared with renderings in a fresh process; parse-back oracle",
     note="Sampled schedules, interruption points and solutions.")

prop("S06", "A batch records every problem once, in order, with a truthful status",
     "A batch call returns exactly one record per input problem, in input order, and each record's status, degree, method and solution are those of that problem: 'success' only with an exact proof of that very problem, "
     "'invalid' only for unreadable text, 'fail' only when no proof was found, 'error' only when solving it raised. A problem that fails, raises or is unreadable changes no other record, "
     "and each record agrees with solving that problem alone under the same back-end behaviour.",
     ["histories", "fault_sequences", "inputs"],
     "every list of problems (including unreadable and blank ones, given as list or file) and every assignment of back-end faults to problems",
     "Tests have no batch run at all; cross-record contamination needs a failing problem between others.",
     ["triples/core/sum_of_squares.py", "triples/utils/text_process.py"],
     [{"name": "batch loop and record keeping", "where": "triples/core/sum_of_squares.py:sum_of_squares_multiple"},
      {"name": "problem reader", "where": "triples/utils/text_process.py:PolyReader"}],
     observe=["the returned table"],
     technique=SIM + "seeded problem lists with per-problem solver faults, compared record by record with solving alone and with an exact certificate oracle",
     note="Sampled lists and fault plans.")

prop("S07", "Saved batch results are complete, never overwrite others, and times are sane",
     "When a batch call that was asked to save returns normally, the file it saved contains every record of the returned table, readable back with the same problems, order, statuses, methods and rendered solutions, at the place asked for; an automatically named file never replaces "
     "an existing one. If writing fails (full disk, I/O error, no permission) the caller gets an exception rather than a silently missing or truncated file, and recorded times are never negative whatever the system clock does.",
     ["fault_sequences", "histories", "crash_points", "configurations"],
     "every sequence of batch runs, file targets, clock jumps, and I/O faults at any point of the write",
     "It depends on clock readings, names already present and I/O errors at each write; no test saves a batch.",
     ["triples/core/sum_of_squares.py"],
     [{"name": "choice of file name and write", "where": "triples/core/sum_of_squares.py:_process_records"},
      {"name": "timing", "where": "triples/core/sum_of_squares.py:sum_of_squares_multiple"}],
     observe=["files in the target directory, returned table, exceptions"],
     technique=SIM + "simulated clock (jumps, steps back) and faulty file I/O on a scratch directory; reference model of the directory",
     note="Sampled fault positions; files live in a scratch directory, pandas' writer is real.")

prop("S08", "A warm process answers exactly as a fresh one",
     "The answer to a call (solved or not, the proof, its rendering, roots found, polynomial parsed) does not depend on which calls the same process served before, whether they succeeded, failed, raised, or used other options.",
     ["histories", "fault_sequences", "configurations"],
     "every history of earlier calls with any options and back-end faults",
     "Leaks through caches, default dictionaries or solver options need a particular earlier call; tests compare single calls.",
     ["triples/core", "triples/sdp/backend", "triples/utils", "triples/gui/sos_manager.py"],
     [{"name": "module-level caches and default options", "where": "triples/core/linsos/basis.py, triples/utils/basis_generator.py, triples/sdp/backend/cvxopt_sdp.py, triples/utils/expression/cyclic.py"}],
     state=[{"name": "caches, solver option dictionaries, registries", "meaning": "state that survives between calls"}],
     observe=["return values of the public API after a history, compared with a fresh process"],
     technique=SIM + "seeded call histories with faults, refinement against the fresh-process model",
     note="Sampled histories.")

prop("S09", "Calls never modify the caller's arguments or shared defaults",
     "No public call changes the lists, dictionaries, polynomials, problem objects or option dictionaries passed to it, nor the package's shared default options, whether it succeeds, fails or raises at any point.",
     ["inputs", "fault_sequences", "crash_points"],
     "every public entry point, every argument, every failure point",
     "In-place edits on rare paths (a failing back end, a special case) go unnoticed by tests that look only at return values.",
     ["triples/core/sum_of_squares.py", "triples/core/shared.py", "triples/gui/sos_manager.py", "triples/sdp", "triples/utils/roots", "triples/utils/text_process.py"],
     [{"name": "copying of arguments", "where": "triples/core/shared.py:sanitize_input, triples/core/sum_of_squares.py"}],
     observe=["deep snapshots of arguments and defaults before and after each call"],
     technique=SIM + "deep snapshots around calls under injected back-end failures and interruptions at seeded source lines",
     note="Sampled calls, faults and interruption points.")

prop("S10", "An interrupted call leaves the process as good as fresh",
     "If a call is interrupted at an arbitrary point (keyboard interrupt, out of memory) the interruption reaches the caller, "
     "and every later call in the same process still behaves as in a fresh process: same answers, same renderings, no changed defaults or options.",
     ["crash_points", "histories"],
     "every interruption point of every public call, followed by any further calls",
     "The state left behind depends on the exact line interrupted; tests interrupt nothing.",
     ["triples/core", "triples/sdp", "triples/utils", "triples/gui"],
     [{"name": "restoration of temporarily changed state", "where": "triples/sdp/backend, triples/utils/expression, triples/core/linsos/linsos.py"}],
     observe=["exceptions reaching the caller; results of later calls compared with a fresh process"],
     technique=SIM + "an interruption injected at a seeded source line of a call, then refinement against the fresh-process model",
     note="Sampled interruption points at line granularity inside repository code.")

prop("S11", "Randomised global optimisation is correct for every random draw",
     "The polynomial and monotonic optimisers return, for every sequence of random numbers they draw, a point inside the given box satisfying the constraints within tolerance whose value is within the requested tolerance of the true optimum, and the value reported belongs to the point reported; "
     "if the problem is infeasible they say so rather than return a point.",
     ["schedules", "inputs", "fault_sequences"],
     "every problem, box and tolerance, every stream of random draws",
     "The algorithm splits and tests at random points; a test sees one stream.",
     ["triples/utils/roots/monotonic_opt.py"],
     [{"name": "reverse polyblock approximation", "where": "triples/utils/roots/monotonic_opt.py:rpa_monotonic"}],
     observe=["return values of the optimisers"],
     technique=SIM + "the simulator decides every random draw (seeded strategies), callbacks fail at seeded evaluations; optimum checked against a dense-grid reference and across draws",
     note="Sampled problems and draw sequences; the reference optimum is the best feasible value on a dense grid and over the other draws.")

prop("S12", "The browser page files and shows every answer with the request it answers",
     "For each thing the user asks, the page sends one request, to its connected session, carrying the polynomial, variables, symmetry, methods and options on the page when it was asked, and files the answers (coefficients, proof) under the history entry of that request and no other. "
     "Choosing a history entry shows that entry's polynomial, variables and symmetry, and its coefficients and proof once answered; the result box always shows the chosen form (LaTeX, text, formatted) of the last result that arrived or was chosen. "
     "The number of solves shown as in progress is the number still awaited while the connection holds, never negative, and returns to none once every request was answered, refused or has failed. "
     "This holds for any order and delay of answers, lost connections, failing or refused requests and clock steps.",
     ["schedules", "fault_sequences", "inputs"],
     "every sequence of user actions, every delivery order, loss and clock step",
     "There are no front-end tests; wrong filings need a particular order of answers and actions.",
     ["triples.html", "static/js/socket.js", "static/js/history.js", "static/js/on_change.js", "static/js/visualization.js"],
     [{"name": "history records found by timestamp", "where": "static/js/history.js:setHistoryByTimestamp, updateHistoryData"},
      {"name": "requests and their answers", "where": "triples.html:preprocessInput, static/js/socket.js:connectSocket"},
      {"name": "display of results", "where": "static/js/visualization.js:setSOSResult, renderVisualization"}],
     observe=["requests posted by the page; what the page's elements show after each event; what choosing each history entry shows"],
     technique=SIM + "the page's own scripts run in node on a small simulated browser; the seed decides user actions, every delivery, loss and clock step; refinement against a model of the history",
     note="The browser (DOM, sockets, HTTP) is simulated without WebGL; server answers are stand-ins with distinct contents.")

# ---------------------------------------------------------------- pure properties: not applicable
prop("N01", "Reading a polynomial from text gives the polynomial the text denotes",
     "Parsing text in the library's shorthand (implicit powers and products, cyclic sums and products, fractions) yields exactly the polynomial or rational function the notation denotes, for every text, variable list and symmetry.",
     ["inputs"], "every text, variable list and permutation group",
     "Infinitely many texts; tests sample a few.", ["triples/utils/text_process.py"],
     [{"name": "preprocess_text / pl", "where": "triples/utils/text_process.py"}],
     na="A pure function of its text: no schedule, clock, I/O, randomness or failure for a simulator to decide. (Its use inside S03/S05/S06 histories is simulated there.)")
prop("N02", "Coefficient vectors and polynomials convert back and forth without loss",
     "Converting a polynomial to a vector over a monomial basis and back, with or without a symmetry reduction, gives the same polynomial; dimensions agree with the number of orbits.",
     ["inputs"], "every polynomial, degree, number of variables and symmetry group", "Unbounded family of degrees and groups.",
     ["triples/utils/monomials.py", "triples/utils/basis_generator.py"],
     [{"name": "MonomialReduction", "where": "triples/utils/monomials.py"}],
     na="A pure function of its input with no schedule, clock, fault or interleaving; that its caches do not leak between calls is claimed in S08.")
prop("N03", "Cyclic sums and products denote their expansion",
     "A cyclic sum or product and its expanded form are equal under every substitution, differentiation, simplification and symmetry rewriting, for every permutation group.",
     ["inputs"], "every expression and permutation group", "Algebraic identity over all expressions; tests sample.",
     ["triples/utils/expression/cyclic.py"],
     [{"name": "CyclicSum / CyclicProduct", "where": "triples/utils/expression/cyclic.py"}],
     na="Pure symbolic algebra; no schedule, clock, fault or randomness. Printing, the part with shared state, is S05.")
prop("N04", "Exact linear algebra is exact",
     "The exact matrix routines (solving, null spaces, congruence decomposition, inverse, orthogonal completion) return matrices satisfying their defining identities for every rational matrix.",
     ["inputs"], "every rational matrix", "Unbounded inputs.", ["triples/sdp/arithmetic.py"],
     [{"name": "matrix routines", "where": "triples/sdp/arithmetic.py"}],
     na="Pure functions of their input; nothing for a scheduler or fault injector to decide. Results used in a solve are checked exactly in S02.")
prop("N05", "Elementary-symmetric (pqr) rewriting preserves the polynomial",
     "Rewriting a symmetric or cyclic polynomial in elementary symmetric quantities and substituting back gives the same polynomial.",
     ["inputs"], "every symmetric/cyclic polynomial", "Unbounded inputs.", ["triples/utils/expression/pqr.py"],
     [{"name": "pqr_sym / pqr_cyc", "where": "triples/utils/expression/pqr.py"}],
     na="A pure function of its input; no schedule, clock, fault or randomness.")



def main():
    done = {p["id"] for p in P if os.path.exists(os.path.join(ROOT, "dst", "props", p["id"].lower() + ".py"))}
    with open(os.path.join(ROOT, "properties.jsonl"), "w") as f:
        for p in P:
            a = {"files": p["files"], "mechanism": p["mech"], "hook_needed": None}
            if p["state"]:
                a["state"] = p["state"]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            assert len(p["title"]) <= 80, p["title"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"],
                                "anchors": a}, ensure_ascii=False) + "\n")
    checks, na = [], []
    for p in P:
        if p["na"] or p["id"] not in done:
            na.append({"property": p["id"], "reason": p["na"] or "check not built yet"})
            continue
        checks.append({"property": p["id"], "quick_cmd": "./check.py %s" % p["id"],
                       "thorough_cmd": "./check.py %s --tier thorough" % p["id"],
                       "evidence_file": "evidence/%s.json" % p["id"], "technique": p["technique"],
                       "level": p["level"], "level_note": p["note"]})
    json.dump({"version": 1, "setup_cmd": "./setup.sh",
               "hooks": {"guard": "none: no hook was added to /repo",
                         "enable": "nothing to enable; seams are installed at library boundaries (scipy, cvxopt, numpy, sympy, time, files, flask_socketio) "
                                   "from /verif/dst before the repository is imported",
                         "source_commits": []},
               "checks": checks, "not_applicable": na,
               "notes": "All checks: ./check.py <ID>; a violation is replayed with ./check.py --replay <file>. VERIF_SEED selects the seed stream. "
                        "This file and properties.jsonl are generated by tools/spec.py."},
              open(os.path.join(ROOT, "MANIFEST.json"), "w"), indent=1, ensure_ascii=False)


main()
