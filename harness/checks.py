"""What each check runs."""
import concurrent.futures
import shutil

import core
import own
import stim

# property -> (stimuli, thorough scale, models (quick), models (thorough), shards)
SH = {"TRUE": 4, "FALSE": 3}
LIB = {
    "C01": (stim.c01, 8, ["MC_Lcrng"], []),
    "C02": (stim.c02, 6, ["MC_Lcrng"], []),
    "C03": (stim.c03, 4, ["MC_Lcrng"], []),
    "C04": (stim.c04, 4, ["MC_Bounded"], ["MC_Bounded_all"]),
    "C05": (stim.c05, 6, ["MC_Twister", "MC_Reader", "MC_Blocks"], []),
    "C06": (stim.c06, 6, ["MC_Twister", "MC_Reader", "MC_Blocks"], []),
    "C07": (stim.c07, 8, ["MC_Linear", "MC_Blocks"], []),
    "C08": (stim.c08, 8, ["MC_Linear", "MC_Blocks"], []),
    "C09": (stim.c09, 8, ["MC_Linear", "MC_Blocks"], []),
    "C10": (stim.c10, 8, ["MC_Util"], []),
    "C11": (stim.c11, 4, ["MC_RngList"], []),
    "C12": (stim.c12, 8, ["MC_Message"], []),
    "C13": (stim.c13, 8, ["MC_ShaPlan"], []),
    "C14": (stim.c14, 4, [], []),
    "C15": (stim.c15, 4, [], []),
    "C16": (stim.c16, 3, ["MC_Windows", "MC_Pids"], []),
    "C17": (stim.c17, 4, ["MC_Attributes"], []),
    "C18": (stim.c18, 3, ["MC_Choice"], []),
    "C19": (stim.c19, 4, [], []),
    "C21": (stim.c21, 8, ["MC_Choice"], []),
    "C22": (stim.c22, 8, [], ["MC_Flat"]),
    "C23": (stim.c23, 1, [], []),
    "C24": (stim.c24, 2, [], []),
    "C25": (stim.c25, 8, ["MC_Util"], ["MC_Words"]),
    "C26": (stim.c26, 1, [], []),
    "C27": (stim.c27, 8, [], []),
    "C28": (stim.c28, 8, [], []),
}
# shipped files the specification needs
DATA = {"C14": ("gen3", "tables3", "arceus"), **{p: ("gen3",) for p in ("C15", "C17", "C18")}, "C16": ("gen3", "tables3"), "C19": ("tables3",), "C21": ("arceus",), "C22": ("arceus",),
        "C23": ("arceus",), "C24": ("personal",)}
# loaders with a cache on disk: played again by later processes
AGAIN = {"C19", "C23"}
# played once more on data files of our own; the part of the histories that is
OWN = {"C16": 0.3, "C17": 0.4, "C18": 0.4, "C19": 1, "C23": 1, "C24": 0.3}
# behaviours generated from the specification and replayed: model, quick and thorough configuration
BEHAVIOURS = {
    "C05": ("MC_Reader", "MC_Reader_gen2", "MC_Reader_gen3"),
    "C06": ("MC_Reader", "MC_Reader_gen2", "MC_Reader_gen3"),
    "C11": ("MC_RngList", "MC_RngList_gen3", "MC_RngList_gen4"),
    "C13": ("MC_ShaPlan", "MC_ShaPlan_gen4", "MC_ShaPlan_gen5"),
    "C22": ("MC_Flat", "MC_Flat_gen2", "MC_Flat_gen2"),
}


def library(ctx):
    fun, deep, quick_models, more_models = LIB[ctx.prop]
    extra = ctx.data(DATA[ctx.prop]) if ctx.prop in DATA else None
    models = [ctx.model_start(m.partition("_all")[0], m, workers=2, env=extra) for m in quick_models + ([] if ctx.quick else more_models)]
    g = stim.Gen(ctx.seed, ctx.prop, 1 if ctx.quick else deep)
    if ctx.prop in BEHAVIOURS:
        module, quick, thorough = BEHAVIOURS[ctx.prop]
        g.behaviours = ctx.behaviours(module, quick if ctx.quick else thorough)
    histories = fun(g)
    if ctx.prop == "C14":
        ctx.env["VERIF_WIDTHS"] = "1"
    recorded = ctx.play(histories, SH)
    if ctx.prop == "C14":
        # the variable left out, other values of it, and no numba
        some = g.r.sample(histories, len(histories) // 16)
        quick = [h for h in histories if h[0].get("c", {}).get("k") in ("PokeRNGMod", "PokeRNGRDiv", "XS", "UTIL", "SHA1")][::20]
        runs = [("TRUE", quick, {"NPP_USE_NUMBA": None})] + [("FALSE", some, env) for env in (
            {"NPP_USE_NUMBA": "1"}, {"NPP_USE_NUMBA": ""}, {"NPP_USE_NUMBA": "TRUE", "VERIF_NO_NUMBA": "1"}, {"VERIF_NO_NUMBA": "1"})]
        with concurrent.futures.ThreadPoolExecutor() as pool:
            others = list(pool.map(lambda run: ctx.play(run[1], {"TRUE": 1, "FALSE": 1}, modes=(run[0],), env=run[2]), runs))
        for (_, hs, _), more in zip(runs, others):
            histories = histories + hs
            recorded = {m: recorded[m] + more[m] for m in recorded}
    for m in models:
        ctx.model_finish(m)
    if ctx.prop in AGAIN:
        later = ctx.play(histories, SH)
        histories = histories * 2
        recorded = {m: recorded[m] + later[m] for m in recorded}
    ctx.validate(histories, recorded, extra=extra)
    if ctx.prop in OWN and not ctx.hung:
        own_data(ctx, g.r.getrandbits(32))


def own_data(ctx, seed, histories=None):
    """the same with other data in the package"""
    root = own.make(ctx.work / "own", seed)
    if histories is None:
        g = stim.Gen(seed, ctx.prop, 1 if ctx.quick else LIB[ctx.prop][1])
        g.res = root / "numba_pokemon_prngs" / "resources"
        histories = LIB[ctx.prop][0](g)
        histories = g.r.sample(histories, int(len(histories) * OWN[ctx.prop]))
    recorded = {m: [] for m in core.MODES}
    again = 2 if ctx.prop in AGAIN else 1
    for _ in range(again):
        more = ctx.play(histories, {"TRUE": 2, "FALSE": 2}, cache=lambda mode, n: f"own{mode}", env={"PYTHONPATH": str(root)})
        recorded = {m: recorded[m] + more[m] for m in recorded}
    ctx.validate(histories * again, recorded, extra=ctx.data(DATA[ctx.prop], root=root), note={"own": seed})


def cache(ctx):
    """the loaders' cache: model, its behaviours replayed into real processes, and cut files in both modes"""
    models = [ctx.model_start("MC_Cache", cfg, workers=2) for cfg in ("MC_Cache", "MC_Cache_inplace")]
    g = stim.Gen(ctx.seed, ctx.prop, 1 if ctx.quick else 8)
    ctx.refuted("MC_Cache", "MC_Cache_trusting", "Right")
    behaviours = ctx.behaviours("MC_Cache", "MC_Cache_gen")
    areas = (1, 4) if ctx.quick else stim.AREAS
    lab = stim.c20_lab(g, behaviours, areas)
    real = stim.c20_real(g, areas)
    cut = stim.c20_cut(g, areas)
    shim = core.build_shim()
    for m in models:
        ctx.model_finish(m)
    histories, recorded = [], {m: [] for m in core.MODES}

    def take(hs, rec):
        histories.extend(hs)
        for m in rec:
            recorded[m].extend(rec[m])

    take(lab, ctx.play(lab, {"TRUE": 1, "FALSE": 7}, driver="cachelab.py", cache=lambda mode, n: f"lab{n}", preload=shim))
    # both modes at once on one new cache, then again, and then with the other mode's files cut
    take(real, ctx.play(real, {"TRUE": 3, "FALSE": 3}, cache=lambda mode, n: "both"))
    take(real, ctx.play(real, {"TRUE": 3, "FALSE": 3}, cache=lambda mode, n: "both"))
    for mode in core.MODES if not ctx.hung else ():
        shutil.copytree(ctx.work / "both", ctx.work / f"cut{mode}")
    take(cut, ctx.play(cut, {"TRUE": 1, "FALSE": 1}, cache=lambda mode, n: f"cut{mode}"))
    # nowhere to put the cache
    (ctx.work / "file").write_text("")
    few = [h for h in real if h[0]["c"]["k"] == "ENC3"]
    take(few, ctx.play(few, {"TRUE": 1, "FALSE": 1}, cache=lambda mode, n: "file/none"))
    ctx.validate(histories, recorded, extra=ctx.data(("tables3", "arceus"), areas))


def replay(ctx, info):
    """play one failing history again"""
    history = info["stimuli"]
    if "own" in info:
        own_data(ctx, info["own"], [history])
        return
    lab = "loaders" in history[0]
    if "C14" == ctx.prop:
        ctx.env["VERIF_WIDTHS"] = "1"
    extra = None
    if ctx.prop == "C20":
        extra = ctx.data(("tables3", "arceus"), stim.AREAS)
    elif ctx.prop in DATA:
        extra = ctx.data(DATA[ctx.prop])
    for _ in range(2 if ctx.prop in AGAIN | {"C20"} else 1):
        if lab:
            recorded = ctx.play([history], SH, driver="cachelab.py", cache=lambda mode, n: "lab", preload=core.build_shim())
        else:
            recorded = ctx.play([history], SH)
        ctx.validate([history], recorded, extra=extra)


CHECKS = {p: library for p in LIB}
CHECKS["C20"] = cache

# property -> (technique, level note), where they differ from the usual ones
TEXT = {}
