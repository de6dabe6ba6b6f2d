"""Which specification behaviours decide which property."""
import os
import random


RULE = ("behaviours of the Quint specification drawn by its simulator from the seed; every step is one call of the real "
        "library whose answer must lie in the interval the specification allows; a call counts as distinct and "
        "non-trivial if its operation and arguments differ from every other call and the specification constrains its answer")
FLOAT = ("inputs are dyadic rationals (finite f32/f64 values) in the ranges the specification draws from; "
         "answers may differ from the exact value by the rounding tolerance stated in the specification")

NOTE = ("Bounded by what the specification's simulator generates from the seed; trusts the Quint simulator, the fixed-point "
        "arithmetic of spec/fix.qnt and the replay harness.")
TECH = "model-based testing: Quint specification behaviours replayed in the real library"
NOT_APPLICABLE = {}


class Job:
    def __init__(self, spec, main, step, invariants=(), quick=(8, 1, 1500), thorough=(16, 4, 6000), init="init",
                 cfg=("default",), thorough_cfg=None, stateful=False, must_cover=(), role=""):
        # init: one initial action, or one per process; (quick, thorough) may differ
        self.spec, self.main, self.step, self.inits = spec, main, step, init if isinstance(init, dict) else {"quick": init, "thorough": init}
        self.invariants = list(invariants)
        self.quick, self.thorough = quick, thorough
        self.cfg, self.thorough_cfg = tuple(cfg), tuple(thorough_cfg or tuple(cfg) + ("release",))
        self.stateful, self.must_cover = stateful, list(must_cover)
        # in a schedule of many threads: "plan" the schedule, "any" calls whose numbers may be varied freely
        self.role = role

    def init(self, tier, i):
        x = self.inits[tier]
        return x if isinstance(x, str) else x[i % len(x)]

    def size(self, tier):
        return self.quick if tier == "quick" else self.thorough

    def configs(self, tier):
        return self.cfg if tier == "quick" else self.thorough_cfg


class Verify:
    def __init__(self, what, cmd, timeout=600, tiers=("quick", "thorough")):
        self.what, self.cmd, self.timeout, self.tiers = what, cmd, timeout, tiers


class Prop:
    def __init__(self, jobs, level="exploration", note="", rule=None, assumptions=None, verifies=(), technique=None, world=False):
        self.jobs, self.level, self.note = jobs, level, note + (" " if note else "") + NOTE
        self.rule = rule or RULE
        self.technique = technique or TECH
        assumptions = [FLOAT] if assumptions is None else assumptions
        self.assumptions = list(assumptions)
        self.verifies = list(verifies)
        self.world = world

    def verify(self, tier):
        return [v for v in self.verifies if tier in v.tiers]


def apalache(spec, invs, steps=0, main=None):
    def cmd(specdir, tmp):
        port = 20000 + random.SystemRandom().randrange(20000)
        return ["quint", "verify", os.path.join(specdir, spec), "--max-steps", str(steps), "--server-endpoint",
                "localhost:%d" % port] + (["--main", main] if main else []) + ["--invariants"] + invs
    return cmd


CASES = {"quick": "caseAny", "thorough": ["case%d" % i for i in range(16)]}
HISTORIES = {"quick": "histAny", "thorough": ["hist%d" % i for i in range(16)]}

PROPS = {
    "C01": Prop([Job("quant.qnt", "quant", "step", ["quantTight", "quantHolds", "specRoundTrip"],
                     quick=(7, 1, 3000), thorough=(14, 4, 8000)),
                 Job("quant.qnt", "quant", "blocks", quick=(1, 1, 514), thorough=(1, 1, 514))],
                note="All 256 and all 65536 codes are enumerated at both precisions; float inputs are sampled.",
                verifies=[Verify("quantisation is nearest, monotone and inverts code/max for every code and every error below "
                                 "half a code (symbolic, Apalache)",
                                 apalache("quantMc.qnt", ["roundTrip", "inRange", "monotone", "nearest"]),
                                 tiers=("thorough",))]),
    "C02": Prop([Job("transfer.qnt", "transfer", "stepC02", ["wellFormed"], quick=(8, 1, 4000), thorough=(16, 4, 8000))]),
    "C03": Prop([Job("transfer.qnt", "transfer", "stepC03",
                     ["wellFormed", "specInverse", "specInverse2", "specOrder", "specOrder2"],
                     quick=(8, 1, 4000), thorough=(16, 4, 8000))]),
    "C24": Prop([Job("arith.qnt", "arith", "step", ["algebra", "normalizeMax", "clampInside", "castPanics"],
                     quick=(8, 1, 4000), thorough=(16, 4, 8000))]),
    "C06": Prop([Job("linalg.qnt", "linalg", "stepC06", ["specWhitesOk", "specCatWhite", "specCatChain"],
                     quick=(8, 1, 2000), thorough=(16, 4, 5000))]),
    "C09": Prop([Job("linalg.qnt", "linalg", "stepC09", ["specInv", "specSingular", "specDetMul"],
                     quick=(8, 1, 4000), thorough=(16, 4, 8000))]),
    "C10": Prop([Job("linalg.qnt", "linalg", "stepC10", ["specXyyRound", "specXyzRound", "specUnitLum"],
                     quick=(8, 1, 4000), thorough=(16, 4, 8000))]),
    "C04": Prop([Job("spaces.qnt", "spaces", "stepC04", ["specLaws"], quick=(8, 1, 1500), thorough=(16, 4, 4000))]),
    "C05": Prop([Job("spaces.qnt", "spaces", "fieldsAct", ["specPublishedInverse", "specPublishedDerived"],
                     quick=(1, 1, 38), thorough=(1, 1, 38)),
                 Job("spaces.qnt", "spaces", "stepC05", quick=(7, 1, 1500), thorough=(14, 4, 4000))],
                note="All 19 built-in spaces and all their fields are enumerated; colours are sampled."),
    "C07": Prop([Job("spaces.qnt", "spaces", "stepC07", ["specConvLaws"], quick=(8, 1, 1200), thorough=(16, 4, 3000))]),
    "C08": Prop([Job("spaces.qnt", "spaces", "stepC08", ["specSame", "specWhite"], quick=(8, 1, 1000), thorough=(16, 4, 3000))]),
    "C11": Prop([Job("lab.qnt", "lab", "stepC11", ["specLabInverse", "specLabInverse2", "specNeutral"],
                     quick=(8, 1, 4000), thorough=(16, 4, 8000))]),
    "C12": Prop([Job("lab.qnt", "lab", "stepC12", ["specSymmetric", "specNonNegative"],
                     quick=(8, 1, 2000), thorough=(16, 4, 5000)),
                 Job("lab.qnt", "lab", "stepSharma", ["specSharma"], quick=(1, 1, 1), thorough=(1, 1, 1))]),
    "C22": Prop([Job("data.qnt", "data", "step",
                     ["specEqualEnergy", "specDaylight", "specBasis", "specCharts", "specEncoded"],
                     quick=(1, 1, 119), thorough=(1, 1, 119), must_cover=["tbl_spectrum", "tbl_basis", "tbl_fast", "tbl_sizes",
                     "tbl_names", "tbl_xyz", "tbl_white", "tbl_rgb"])],
                note="Every entry of every published table is compared exactly (exhaustive)."),
    "C13": Prop([Job("vspd.qnt", "vspd", "stepC13", ["specSound"], quick=(8, 2, 800), thorough=(16, 8, 1500), stateful=True,
                     must_cover=["r_new", "r_const", "r_vals", "r_interp", "r_extrap", "r_align", "r_trim", "r_scale", "r_eq", "r_dump", "sp_alike:alike", "sp_alike:value off", "sp_alike:wavelength off", "sp_alike:longer"]),
                 Job("grids.qnt", "grids", "histStep", ["gridSound"], quick=(8, 1, 600), thorough=(16, 1, 14412), init=HISTORIES,
                     stateful=True)],
                note="Thorough: every history of three operations (of 14) on each of 14 small spectra is enumerated."),
    "C14": Prop([Job("vspd.qnt", "vspd", "stepC14", ["specQuintic", "specKnots"], quick=(8, 1, 800), thorough=(16, 4, 3000))]),
    "C15": Prop([Job("vspd.qnt", "vspd", "stepC15", ["specKeeps", "specTrim"], quick=(8, 1, 600), thorough=(16, 4, 2400),
                     must_cover=["sp_op:bound next to a sample", "sp_op:wider", "sp_op:nested", "sp_op:overlapping", "cmf_align", "ip_const", "long_op"]),
                 Job("grids.qnt", "grids", "caseStep", ["gridKeeps", "gridAlign"], quick=(8, 1, 600), thorough=(16, 1, 1656), init=CASES)],
                note="Thorough: every range (in half nanometres) around each of 14 small spectra is enumerated for every operation."),
    "C16": Prop([Job("vconv.qnt", "vconv", "stepC16", ["specPerfect", "specAdditive"], quick=(8, 1, 300), thorough=(16, 4, 800),
                     must_cover=["xyz:", "xyz_const", "xyz_lin", "xyz_dim"])]),
    "C17": Prop([Job("vconv.qnt", "vconv", "stepC17", ["specChart"], quick=(8, 1, 400), thorough=(16, 4, 1000),
                     must_cover=["xyz:10 nm", "xyz:5 nm", "xyz:1 nm", "xyz:varying", "xyz:20 nm", "xyz_chart", "xyz_op", "lagrange", "linspace"])]),
    "C18": Prop([Job("fast.qnt", "fast", "stepC18", ["specWeights"], quick=(8, 1, 1500), thorough=(16, 4, 5000),
                     cfg=("default", "avx"), must_cover=["fast_xyz", "fast_ref", "fast_mul", "fast_const", "fast_iter", "fast_eq"])],
                note="Run in the default build and in the AVX build (if the processor has AVX2)."),
    "C19": Prop([Job("fast.qnt", "fast", "stepC19", quick=(8, 1, 1500), thorough=(16, 4, 5000), cfg=("avx",), thorough_cfg=("avx",))],
                note="The function exists only in an AVX build; needs a processor with AVX2 and FMA."),
    "C20": Prop([Job("uplift.qnt", "uplift", "stepC20", ["specBack", "specUnit"], quick=(8, 1, 600), thorough=(16, 4, 2500),
                     must_cover=["uplift:", "uplift_back", "uplift_mix"])]),
    "C21": Prop([Job("uplift.qnt", "uplift", "stepC21", ["specWhites", "specLocus"], quick=(8, 1, 2000), thorough=(16, 4, 8000),
                     must_cover=["cct:", "white_cct", "white_spectrum"])]),
    "C23": Prop([Job("vconv.qnt", "vconv", "stepC23", ["specNit"], quick=(8, 1, 800), thorough=(16, 4, 3000),
                     must_cover=["nit:inside", "nit:own", "nit:outside", "nit_vals"])]),
    "C25": Prop([Job("world.qnt", "worldSim", "step", ["asIfAlone", "once", "noDeadlock"], quick=(4, 4, 400), thorough=(8, 30, 800), role="plan"),
                 Job("world.qnt", "worldFocus", "step", ["asIfAlone", "once", "noDeadlock"], quick=(4, 10, 300), thorough=(8, 27, 600), role="focus")]
                + [Job(f, m, s, quick=(1, 1, n), thorough=(1, 1, 4 * n), role=r) for f, m, s, n, r in [
                    ("transfer.qnt", "transfer", "stepC02", 300, "any"), ("quant.qnt", "quant", "step", 300, "any"),
                    ("arith.qnt", "arith", "step", 300, "any"), ("linalg.qnt", "linalg", "stepC06", 150, "any"),
                    ("linalg.qnt", "linalg", "stepC09", 150, "any"), ("spaces.qnt", "spaces", "stepC04", 100, "any"),
                    ("spaces.qnt", "spaces", "stepC07", 100, "any"), ("spaces.qnt", "spaces", "stepC08", 100, "any"),
                    ("lab.qnt", "lab", "stepC11", 150, "any"), ("lab.qnt", "lab", "stepC12", 150, "any"),
                    ("vspd.qnt", "vspd", "stepC14", 100, "near"), ("vspd.qnt", "vspd", "stepC15", 60, "near"),
                    ("vconv.qnt", "vconv", "stepC16", 60, "near"), ("vconv.qnt", "vconv", "stepC17", 60, "near"), ("fast.qnt", "fast", "stepC18", 150, "any"),
                    ("uplift.qnt", "uplift", "stepC20", 60, "any"), ("uplift.qnt", "uplift", "stepC21", 100, "any"),
                    ("vconv.qnt", "vconv", "stepC23", 60, "near"), ("data.qnt", "data", "step", 119, "any"), ("text.qnt", "text", "step", 100, "near")]],
                world=True,
                rule="behaviours of spec/world.qnt (eight threads asking, tables filled by their first user) drawn by the simulator from the "
                     "seed are schedules; the calls come from behaviours of the other modules, repeated and varied as the schedule says; "
                     "each schedule is asked forwards, backwards and shuffled by one thread and by eight threads at once, in a fresh process each; "
                     "a call counts as distinct if its operation and arguments differ from every other call",
                note="Threads are real and run freely: which interleavings inside a call occur is up to the operating system.",
                verifies=[Verify("answers are functional, tables filled once, nobody waits for ever (symbolic, three threads, six steps)",
                                 apalache("world.qnt", ["functional", "asIfAlone", "once", "noDeadlock"], 6, "worldMc"), tiers=("thorough",))]),
    "C27": Prop([Job("journey.qnt", "journey", "step", ["sameColour", "wellFormed"], quick=(8, 2, 1000), thorough=(16, 8, 3000), stateful=True,
                     must_cover=["j_put", "j_xyy", "j_xyz", "j_lab", "j_unlab", "j_rgb", "j_unrgb", "j_enc", "j_dec", "j_r2r", "j_cat",
                                 "j_narrow", "j_code"])],
                note="The exact value and the rounding accumulated so far travel with the colour through the specification's states."),
    "C28": Prop([Job("text.qnt", "text", "step", ["complete", "exact"], quick=(8, 1, 1500), thorough=(16, 4, 6000),
                     must_cover=["t_colour:RGB", "t_colour:XYZ", "t_colour:xyY", "t_colour:Lab", "t_codes", "t_rgba", "t_matrix",
                                 "t_shape:uniform", "t_shape:varying", "t_interval", "t_sample", "t_spectrum:uniform",
                                 "t_spectrum:varying", "t_spd"])],
                note="The text is read back leniently: only its numbers (and the word for a missing interval) and their order count."),
    "C26": Prop([Job("refuse.qnt", "refuse", "step", ["wellFormed"], quick=(8, 1, 1500), thorough=(16, 4, 5000),
                     must_cover=["r_peek:fewer", "r_const:fewer", "r_const:shape without", "r_vals:too few", "r_vals:too many", "r_vals:shape without",
                                 "sp_op:no interval to sample", "sp_op:no interval to extrapolate", "sp_op:interval not", "sp_op:nothing", "nit:",
                                 "col_index:beyond", "col_set:beyond", "mat_index:beyond", "cast_slice:not", "mat_inv", "cct"])]),
}
