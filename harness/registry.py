"""What each property's check runs."""


def M(module, cfg, **k):
    return dict(module=module + ".tla", cfg=cfg + ".cfg", **k)


def R(gen, rec, spec, **k):
    return dict(cases=gen, worker=rec, spec=spec, **k)


COVER = [M("CoverModel", "CoverModel_square", min=30000), M("CoverModel", "CoverModel_wheel", min=1000), M("CoverModel", "CoverModel_full", min=2000)]
LIFT = [M("LiftModel", "LiftModel_tetra_3", min=80), M("LiftModel", "LiftModel_band_3", min=700),
        M("LiftModel", "LiftModel_annulus_5", min=9000), M("LiftModel", "LiftModel_rp2_2", min=190)]
SCALE = [M("ScaleModel", "ScaleModel", min=8000)]
MOORE = [M("MooreModel", "MooreModel_%d" % q, min=20000) for q in (2, 3)]
BARCODE = [M("PersistenceModel", "PersistenceModel_2", min=3000), M("PersistenceModel", "PersistenceModel_3", min=260)]
ORDER = [M("ClassOrder", "ClassOrder", min=18000)]

PROPS = {
    "C01": {
        "recorders": [R("gen_land", "rec_land", "T_Greedy")],
        "models": [M("Greedy", "Greedy_a", min=3000), M("Greedy", "Greedy_b", min=1000),
                   M("Greedy", "Greedy_c", min=20000), M("Greedy", "Greedy_d", min=300000, thorough=True)],
        "min_events": 200,
    },
    **{c: {"recorders": [R("gen_torus", "rec_torus", "T_Torus")], "models": COVER, "min_events": 50} for c in ("C07", "C08")},
    "C09": {"recorders": [R("gen_torus", "rec_torus", "T_Torus")], "models": [M("Lll", "Lll_2", min=490), M("Lll", "Lll_3", min=32000)], "min_events": 50},
    **{c: {"recorders": [R("gen_torus", "rec_torus", "T_Torus"), R("gen_cover", "rec_cover", "T_Cover")], "models": m, "min_events": 50} for c, m in (("C05", SCALE), ("C06", SCALE + COVER))},
    "C04": {"recorders": [R("gen_torus", "rec_torus", "T_Torus"), R("gen_cover", "rec_cover", "T_Cover"), R("gen_hopf", "rec_hopf", "T_Hopf")], "models": LIFT, "min_events": 50},
    **{c: {"recorders": [R("gen_lens", "rec_lens", "T_Lens")], "models": COVER, "min_events": 50} for c in ("C10", "C11")},
    "C02": {"recorders": [R("gen_supply", "rec_supply", "T_Supply")], "models": [], "min_events": 100},
    "C03": {"recorders": [R("gen_persist", "rec_persist", "T_Persist")], "models": ORDER + BARCODE, "min_events": 80},
    "C12": {"recorders": [R("gen_hopf", "rec_hopf", "T_Hopf")], "models": [M("HopfModel", "HopfModel", min=8000)], "min_events": 50},
    "C13": {"recorders": [R("gen_ppca", "rec_ppca", "T_Ppca")], "models": [M("ReductionModel", "ReductionModel", min=1000)], "min_events": 100},
    "C14": {"recorders": [R("gen_life", "rec_life", "T_Lifecycle", from_model=M("Lifecycle", "Lifecycle", min=3000, workers="1")),
                         R("gen_dials", "rec_life", "T_Lifecycle", from_model=M("Dials", "Dials", min=2800, workers="1"))], "models": [], "min_events": 500},
    "C15": {"recorders": [R("gen_circle", "rec_circle", "T_Circle", from_model=M("CircleGroupModel", "CircleGroupModel", min=10000, workers="1"))], "models": [], "min_events": 300},
    "C16": {"recorders": [R("gen_quot", "rec_quot", "T_Quot")], "models": [M("QuotientModel", "QuotientModel_%d" % q, min=10000) for q in (2, 3, 5)], "min_events": 300},
    "C18": {"recorders": [R("gen_examples", "rec_examples", "T_Examples")], "models": MOORE, "min_events": 100},
    "C19": {"recorders": [R("gen_plot", "rec_plot", "T_Canvas", from_model=M("Canvas", "Canvas", min=3000, workers="1"))], "models": [], "min_events": 300},
    "C17": {
        "recorders": [R("gen_simplex", "rec_simplex", "T_Simplex")],
        "models": [M("Filtration", "Filtration_4_3", min=4000), M("Filtration", "Filtration_5_2", min=59000),
                   M("Filtration", "Filtration_5_3", min=1000000, thorough=True, timeout=1500)],
        "min_events": 200,
    },
}

NOT_YET = {}
NOTE = ("The TLA+ design is model checked exhaustively at small bounds; the code is bound to it by trace validation: "
        "every recorded run of the real code (systematic and seeded random cases) is judged by TLC against the specification. "
        "Inputs not explored are not covered. Trusted: TLC and the recorder's fixed-point projection.")
