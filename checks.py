"""Which harness jobs decide which property."""
SAN = ["-O1", "-g0", "-fsanitize=address,undefined", "-fno-sanitize-recover=all"]
OPT = ["-O2", "-DNDEBUG"]

TN = ["-O1", "-g0", "-I", "@VERIF@/standin", "-I", "@VERIF@/harness"]


def tn(name, src, extra=(), **kw):
    return dict(name=name, src="harness/" + src, cxx="mpicxx", flags=TN + list(extra), **kw)


CHECKS = {
    "C01": {
        "rule": "case = one stateless schedule with generated parameters and up to 12 queries biased to its breakpoints; non-trivial = some query reaches a breakpoint",
        "jobs": [{"name": "lr", "src": "harness/lr_schedulers.cpp", "flags": OPT + ["-DPART_C01"], "shards": 4}],
    },
    "C02": {
        "rule": "case = history of energy reports over plateau schedulers and their clones; non-trivial = at least one decay happened",
        "jobs": [{"name": "plateau", "src": "harness/lr_schedulers.cpp", "flags": OPT + ["-DPART_C02"], "shards": 4}],
    },
    "C03": {
        "rule": "case = history of update/reset/copy on EMA trackers; non-trivial = at least three distinct observations",
        "jobs": [{"name": "ema", "src": "harness/ema.cpp", "flags": OPT, "shards": 4}],
    },
}
CHECKS.update({
    "C04": {"rule": "case = operation history over up to 4 matrices checked against a value model with instance counting; non-trivial = a copy or move happened",
            "jobs": [{"name": "duo-asan", "src": "harness/containers.cpp", "flags": SAN + ["-DPART_C04"], "shards": 4},
                     {"name": "duo-opt", "src": "harness/containers.cpp", "flags": OPT + ["-DPART_C04"], "shards": 2}]},
    "C05": {"rule": "case = dump/load/truncate history through files; non-trivial = a successful load of a dumped element",
            "jobs": [{"name": "tm-asan", "src": "harness/containers.cpp", "flags": SAN + ["-DPART_C05"], "shards": 4}]},
    "C06": {"rule": "case = history of set/add/get/resize/extract; non-trivial = accumulation into a non-square matrix with more than one row and column",
            "jobs": [{"name": "obs-asan", "src": "harness/containers.cpp", "flags": SAN + ["-DPART_C06"], "shards": 4}]},
})
CHECKS.update({
    "C07": {"rule": "case = list of repeated amplitudes with generated spread, sign branches and scale; non-trivial = two or more values with a flipped sign branch",
            "jobs": [{"name": "psi", "src": "harness/psi.cpp", "flags": OPT, "shards": 4}]},
    "C08": {"rule": "case = weight vector with every current state, transition probabilities measured with a stratified generator; non-trivial = at least three positive weights",
            "jobs": [{"name": "suwa", "src": "harness/suwa.cpp", "flags": OPT, "shards": 6}, {"name": "suwa-asan", "src": "harness/suwa.cpp", "flags": SAN, "shards": 2, "mult": 0.1}]},
})
CHECKS.update({
    "C09": {"rule": "case = sequence of builder calls and builds, or one factory call; non-trivial = several distinct setters before a build, or explicit factory arguments",
            "jobs": [{"name": "params", "src": "harness/params.cpp", "flags": OPT, "shards": 4}, {"name": "params-asan", "src": "harness/params.cpp", "flags": SAN, "shards": 2, "mult": 0.1}]},
    "C10": {"rule": "case = history of directory operations in a scratch tree; non-trivial = a nested directory was created",
            "jobs": [{"name": "fs", "src": "harness/fsutil.cpp", "flags": OPT, "shards": 4}]},
})
CHECKS.update({
    "C11": {"rule": "case = random network plus a history of environment requests, replacement traces, updates, window moves and walkers compared with an exact contraction; non-trivial rule per generator",
            "jobs": [tn("bmps-env-%d" % b, "bmps.cpp", ["-DPART_ENV", "-DBT=%d" % b], shards=2, mult=4) for b in range(4)]},
    "C12": {"rule": "case = random or deliberately low-rank network contracted under a bond cap; non-trivial = the cap discards weight or the rank is at least two",
            "jobs": [tn("bmps-trunc-%d" % b, "bmps.cpp", ["-DPART_TRUNC", "-DBT=%d" % b], shards=2, mult=4) for b in range(4)]},
})
CHECKS.update({
    "C13": {"rule": "case = history of randomise/copy/stream operations, of dumps/loads/damages, or of messages between ranks; non-trivial rule per generator",
            "jobs": [tn("config", "config.cpp", ["-DPART_C13"], shards=3, mult=6)] + [tn("config-mpi%d" % n, "config.cpp", ["-DPART_C13", "-DPBT_MPI"], np=n, mult=4) for n in (2, 3, 4)]},
    "C14": {"rule": "case = history of coefficient writes with the field recomputed at every site; non-trivial = two different pairs set",
            "jobs": [tn("jastrow", "config.cpp", ["-DPART_C14"], shards=4, mult=20)]},
    "C15": {"rule": "case = generated series per rank; non-trivial = at least two samples (serial), always for the reductions over ranks",
            "jobs": [tn("stats", "stats.cpp", shards=4, mult=20)] + [tn("stats-mpi%d" % n, "stats.cpp", ["-DPBT_MPI"], np=n, mult=10) for n in (1, 2, 3, 4)]},
    "C16": {"rule": "case = generated operator, right-hand side, start, tolerances and optional fault in a product; non-trivial = positive definite system solved within the distinct-eigenvalue bound",
            "jobs": [tn("cg", "cg.cpp", shards=4, mult=10)] + [tn("cg-mpi%d" % n, "cg.cpp", ["-DPBT_MPI"], np=n, mult=1) for n in (1, 2, 3, 4)]},
})
CHECKS.update({
    "C17": {"rule": "case = history of up to nine arithmetic operations over three states checked element by element, or a lattice queried for its bond dimensions; non-trivial rule per generator",
            "jobs": [tn("sitps-alg-%d" % b, "sitps.cpp", ["-DPART_C17", "-DBT=%d" % b], mult=4) for b in range(6)]},
    "C18": {"rule": "case = one dump/load with optional fault, or up to three messages between ranks; non-trivial = at least two sites",
            "jobs": [tn("sitps-io-%d" % b, "sitps.cpp", ["-DPART_C18", "-DBT=%d" % b], mult=2) for b in (0, 3, 4)]
            + [tn("sitps-mpi%d" % n, "sitps.cpp", ["-DPART_C18", "-DPBT_MPI", "-DBT=%d" % b], np=n, mult=4) for n, b in ((2, 5), (3, 0), (4, 3))]},
    "C19": {"rule": "case = state split, regrouped, projected and updated, or a superposition of up to three states evaluated on configurations; non-trivial = at least two sites and two components or states",
            "jobs": [tn("sitps-conv-%d" % b, "sitps.cpp", ["-DPART_C19", "-DBT=%d" % b], mult=5) for b in range(6)]},
})
CHECKS.update({
    "C20": {"rule": "case = history of sweeps and global moves on one walker with exact amplitudes, or an ensemble of walkers started from |psi|^2, or one long walk; non-trivial rule per generator",
            "jobs": [tn("upd-obc-%d" % b, "updaters.cpp", ["-DBT=%d" % b], shards=4, mult=2) for b in range(2)] + [tn("upd-pbc-%d" % b, "updaters.cpp", ["-DPBC", "-DBT=%d" % b], shards=2, mult=2) for b in range(2)] + [tn("upd-ferm-%d" % b, "updaters.cpp", ["-DFERMI", "-DBT=%d" % b], shards=2, mult=1) for b in range(2)]},
    "C21": {"rule": "case = random periodic network with a history of traces, replacements, trials, commits, cache clears and holes compared with an exact contraction; non-trivial rule per generator",
            "jobs": [tn("trg-%d" % b, "trg.cpp", ["-DBT=%d" % b], shards=2, mult=40 if b < 2 else 20) for b in range(4)]},
    "C22": {"rule": "case = random wave function, model, couplings and configuration, evaluated one to four times between sweeps against the dense Hamiltonian; non-trivial = an off-diagonal term contributes",
            "jobs": [tn("spin-obc-%d" % b, "solvers.cpp", ["-DBT=%d" % b], shards=4, mult=10) for b in range(2)]},
    "C23": {"rule": "case = random periodic wave function, model, couplings and configuration, evaluated one to three times between sweeps against the dense torus Hamiltonian; non-trivial = an off-diagonal term contributes",
            "jobs": [tn("spin-pbc-%d" % b, "solvers_pbc.cpp", ["-DBT=%d" % b], shards=4, mult=20) for b in range(2)]},
})

def opt(k, mult=10, mm=2):
    return [tn("optim%d-%d" % (k, b), "optim.cpp", ["-DPBT_MPI", "-DONLY=%d" % k, "-DBT=%d" % b], np=1, shards=2, mult=mult) for b in range(4)] + [tn("optim%d-mpi%d" % (k, n), "optim.cpp", ["-DPBT_MPI", "-DONLY=%d" % k, "-DBT=%d" % b], np=n, mult=mm) for n, b in ((2, 3), (3, 0))]


CHECKS.update({
    "C24": {"rule": "case = one or two optimisations of a random state against a recorded evaluator, replayed by a dense model; non-trivial = more than two accepted steps judged", "jobs": opt(24)},
    "C25": {"rule": "case = one natural-gradient optimisation with designed samples, one S/T matrix, or one pseudo-inverse; non-trivial rule per generator", "jobs": opt(25)},
    "C26": {"rule": "case = one or two optimisations with injected error, gradient and energy spikes, replayed; non-trivial = a spike was acted on", "jobs": opt(26)},
    "C27": {"rule": "case = fixed-step L-BFGS replayed by a dense BFGS matrix, or strong-Wolfe searches judged trial by trial; non-trivial = a history pair was used, or two searches judged", "jobs": opt(27)},
    "C28": {"rule": "case = one or two optimisations with step selectors, JSONL log and checkpoints read back; non-trivial = a selector moved the step or a checkpoint was written", "jobs": opt(28)},
})


def eng(src, k, mult=8, mm=3):
    return [tn("%s%d-%d" % (src, k, i), src + ".cpp", ["-DPBT_MPI", "-DONLY=%d" % k] + f, np=1, shards=2, mult=mult) for i, f in enumerate((["-DBT=0"], ["-DBT=1"], ["-DPBC", "-DBT=1"]))] + \
        [tn("%s%d-mpi%d" % (src, k, n), src + ".cpp", ["-DPBT_MPI", "-DONLY=%d" % k] + f, np=n, mult=mm) for n, f in ((2, ["-DBT=1"]), (3, ["-DBT=0"]), (4, ["-DPBC", "-DBT=0"]))] + \
        [tn("%s%d-fermi%d" % (src, k, f), src + ".cpp", ["-DPBT_MPI", "-DONLY=%d" % k, "-DFERMI=%d" % f, "-DBT=%d" % b], np=n, mult=mm) for f, b, n in ((3, 1, 1), (4, 0, 2), (2, 1, 2))]


CHECKS.update({
    "C29": {"rule": "case = random state, model and configuration list summed exactly, or an enumeration; non-trivial = at least two distinct local energies (three configurations)", "jobs": eng("engine", 29)},
    "C30": {"rule": "case = history of engine operations, or repeated evaluations, of a scripted chain; non-trivial rule per generator", "jobs": eng("engine", 30)},
    "C31": {"rule": "case = one measurement run (or replica test) of a scripted chain with files read back, or helper functions on random data; non-trivial rule per generator", "jobs": eng("measure", 31)},
    "C32": {"rule": "case = one optimisation (or measurement) run of a scripted chain through the executor or the one-call interface, compared with its parts and its files; non-trivial = at least two iterations with different energies (two configurations, a mismatch)", "jobs": eng("vmcopt", 32)},
})

CHECKS.update({
    "C33": {"rule": "case = random fermionic state, model and configuration evaluated and compared term by term with Fock-space matrix elements; non-trivial = amplitude resolved and at least one hopping (pair) term contributes", "jobs": [tn("ferm-%d" % b, "ferm.cpp", ["-DBT=%d" % b], shards=4, mult=10) for b in (0, 1)]},
})

CHECKS.update({
    "C34": {"rule": "case = a product state prepared, a state converted and regularised, or a history of dumps, loads, damages, copies and moves; non-trivial rule per generator", "jobs": [tn("peps34-%d" % b, "peps.cpp", ["-DONLY=34", "-DBT=%d" % b], mult=10) for b in range(6)]},
    "C35": {"rule": "case = history of up to four gates on bonds and triangles of a random state, each compared with the gate applied to the dense wave function; non-trivial = at least two gates changed a non-vanishing state", "jobs": [tn("peps35-%d" % b, "peps.cpp", ["-DONLY=35", "-DBT=%d" % b], shards=2, mult=6) for b in range(6)]},
    "C36": {"rule": "case = one sweep differentiated with respect to the step, a commuting evolution, an energy estimate, a run with stopping rules and metrics, or a refused Hamiltonian; non-trivial rule per generator", "jobs": [tn("peps36-%d" % b, "peps.cpp", ["-DONLY=36", "-DBT=%d" % b], shards=2, mult=3) for b in range(6)]},
    "C37": {"rule": "case = a history of plaquette gates, a batch of truncated plaquettes, a sweep differentiated with respect to the step, a run with stopping rules and metrics, or a refused shape; non-trivial rule per generator", "jobs": [tn("loop-%d" % b, "loop.cpp", ["-DNDEBUG", "-DBT=%d" % b], shards=3, mult=6) for b in range(2)]},
})

CHECKS.update({
    "C38": {"rule": "case = a history of one PEPS record and its copies, one measurement and one optimisation record, one sampling record read from disk with optional damage, or one set of truncation records; non-trivial rule per generator", "jobs": [tn("runparams", "runparams.cpp", shards=4, mult=4)]},
})
