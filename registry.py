"""Which obligations decide which property."""
import itertools
import re

from sa.equiv import *
from sa.interp import declared_global, path_of, secant_stub
from sa.models import *
from sa.interp import NOT_CALLED
from sa.imports import AtImport
from sa.kinds import Plain
from sa.oblig import Eq, opaque
from sa.settings import CONVERSION, old, OBLIGATIONS as SHIPPED
from sa.terms import *

M = "cosipy.modules."
G = "cosipy.cpkernel.grid.Grid."


def P(x):
    return sym("p:" + x)


def positive(*names):
    return [(mk("le", P(x), 0), False) for x in names]


OBLIGATIONS = {}


def add_ob(o):
    OBLIGATIONS[o.name] = o


for o in SHIPPED + CONVERSION:
    add_ob(o)

# ---------------------------------------------------------------- column processes
for name, code, spec, args in [
    ("percolation", "percolation.percolation", "water.percolation", "GRID water dt"),
    ("refreezing", "refreezing.refreezing", "water.refreezing", "GRID"),
    ("roughness", "roughness.updateRoughness", "surface.roughness", "GRID"),
    ("albedo", "albedo.updateAlbedo", "surface.albedo", "GRID surface_temperature albedo_snow"),
    ("heat equation", "heatEquation.solveHeatEquation", "column.heat", "GRID dt"),
    ("densification", "densification.densification", "column.compaction", "GRID SLOPE dt"),
    ("penetrating radiation", "penetratingRadiation.penetrating_radiation", "column.radiation", "GRID SWnet dt"),
]:
    add_ob(Eq(name, M + code, "spec." + spec, args.split()))

# ---------------------------------------------------------------- surface energy balance
ST = M + "surfaceTemperature."
SECANT = {M + "secant.secant": secant_stub}
FLUXES = {ST + "eb_fluxes": opaque("fluxes", 13), "spec.energy.fluxes": opaque("fluxes", 13)}
A = "dt z z0 T2 rH2 p".split()
POS = positive("z", "z0", "T2")
add_ob(Eq("subsurface interpolation", ST + "interp_subT", "spec.energy.soil_temperatures", ["GRID"]))
add_ob(Eq("surface fluxes", ST + "eb_fluxes", "spec.energy.fluxes",
          ["GRID", "T0"] + A + "u2 RAIN SLOPE B_Ts LWin N".split(), assume=POS))
add_ob(Eq("energy balance residual", ST + "eb_optim", "spec.energy.residual",
          ["T0", "GRID"] + A + "SWnet u2 RAIN SLOPE B_Ts LWin N".split(),
          assume=POS + [(eq(P("LWin"), NONE), False)], stubs=FLUXES))
add_ob(Eq("surface temperature", ST + "update_surface_temperature", "spec.energy.surface",
          ["GRID"] + A + "SWnet u2 RAIN SLOPE LWin N".split(), stubs={**SECANT, **FLUXES}))
add_ob(Eq("secant", M + "secant.secant", "spec.energy.root", "func x0 args tol maxiter x1 rtol".split()))

# ---------------------------------------------------------------- layers
FIELDS = dict(height="h", temperature="T", liquid_water_content="lwc", ice_fraction="ice", refreeze="refreeze",
              porosity="porosity", cold_content="cold_content", density="density", specific_heat="specific_heat",
              irreducible_water_content="irreducible", thermal_conductivity="conductivity",
              thermal_diffusivity="diffusivity")
STORED = ("height", "temperature", "liquid_water_content", "ice_fraction", "refreeze")
IDX = [(mk("lt", P("idx"), 0), False)]
for c, s in FIELDS.items():
    add_ob(Eq("get_node_" + c, G + "get_node_" + c, "spec.layers.get_" + s, ["GRID", "idx"]))
    add_ob(Eq("get_" + c, G + "get_" + c, "spec.layers.all_" + s, ["GRID"]))
for c in STORED:
    s = FIELDS[c]
    add_ob(Eq("set_node_" + c, G + "set_node_" + c, "spec.layers.put_" + s, ["GRID", "idx", c]))
    add_ob(Eq("set_" + c, G + "set_" + c, "spec.layers.put_all_" + s, ["GRID", c],
              assume=[(eq(sub(app("len", P(c)), mk("sym", "N")), num(0)), True)]))  # one value per layer
for c, s, a in [
    ("get_depth", "all_depth", ""), ("get_node_depth", "depth_at", "idx"), ("get_snow_heights", "snow_heights", ""),
    ("get_ice_heights", "ice_heights", ""), ("get_number_layers", "count", ""),
    ("get_number_snow_layers", "count_snow", ""), ("get_total_snowheight", "depth_of_snow", ""),
    ("get_total_height", "depth_of_all", ""), ("get_fresh_snow_props", "fresh_snow", ""),
    ("set_fresh_snow_props", "fresh_snow_fell", "height"), ("set_fresh_snow_props_to_old_props", "fresh_snow_gone", ""),
    ("set_fresh_snow_props_update_time", "fresh_snow_ages", "seconds"),
    ("set_fresh_snow_props_height", "fresh_snow_height", "height"),
    ("add_fresh_snow", "add_snow", "height density temperature liquid_water_content dt"),
    ("merge_nodes", "merge", "idx"),
    ("update_node", "update", "idx height temperature ice_fraction liquid_water_content"),
    ("correct_layer", "correct", "idx min_height"), ("log_profile", "log_mesh", ""),
    ("adaptive_profile", "adaptive_mesh", ""), ("update_grid", "remesh", ""), ("split_node", "halve", "pos"),
    ("merge_snow_with_glacier", "sink_snow", "idx"), ("remove_melt_weq", "remove_melt", "melt idx"),
]:
    add_ob(Eq(c, G + c, "spec.layers." + s, ["GRID"] + a.split(), assume=IDX))

# ---------------------------------------------------------------- initial and restored profile
def returned_grid(r):
    """Contents of the layer profile an entry point returns."""
    v = r.interp.deref(r.ret, r.state) if r.ret.k != "ref" else r.ret
    o = r.state.heap.get(v.a[0]) if v.k == "ref" else None
    if o is None or o.kind != "inst" or "grid" not in o.f:
        return {}
    return {**grid_state(r.interp, r.state, v), "returned value": const("the profile")}


PROFILE = "layer_heights layer_density layer_T layer_LWC layer_IF new_snow_height new_snow_timestamp old_snow_timestamp"
INIT = "cosipy.cpkernel.init."
add_ob(Eq("create_grid_jitted", INIT + "create_grid_jitted", "spec.profile.column", PROFILE.split(), extra=returned_grid))
add_ob(Eq("load_snowpack", INIT + "load_snowpack", "spec.profile.restored", ["GRID_RESTART"], extra=returned_grid))
add_ob(Eq("init_snowpack", INIT + "init_snowpack", "spec.profile.initial", ["DATA"], extra=returned_grid))
add_ob(Eq("remove_node", G + "remove_node", "spec.layers.drop", ["GRID", "idx"]))

# ---------------------------------------------------------------- one grid point
# the forcing has at least one time step
STEPS = [(mk("lt", app("len", app(".", P("DATA"), const("time"))), 1), False)]
STUBS = {
    "cosipy.cpkernel.init.init_snowpack": new_grid("GRID", "init_snowpack"),
    "cosipy.cpkernel.init.load_snowpack": new_grid("GRID", "load_snowpack"),
    G + "add_fresh_snow": effect("add_fresh_snow", 0),
    "spec.layers.add_snow": effect("add_fresh_snow", 0),
    G + "set_fresh_snow_props_update_time": effect("age_fresh_snow", 0, ("clock",), ("clock",)),
    "spec.layers.fresh_snow_ages": effect("age_fresh_snow", 0, ("clock",), ("clock",)),
    G + "grid_check": effect("grid_check", 0, ()),
    G + "update_grid": effect("update_grid", 0, ("layers",), ("layers",)),
    G + "remove_melt_weq": effect("remove_melt_weq", None),
    M + "albedo.updateAlbedo": effect("albedo", 2, ("clock",)),
    M + "roughness.updateRoughness": effect("roughness", None, ()),
    M + "penetratingRadiation.penetrating_radiation": effect("penetrating_radiation", 2, ("layers",)),
    M + "surfaceTemperature.update_surface_temperature": effect("surface_temperature", 15, (), ("layers",)),
    M + "percolation.percolation": effect("percolation", None, ("layers",), ("layers",)),
    M + "refreezing.refreezing": effect("refreezing", None, ("layers",), ("layers",)),
    M + "heatEquation.solveHeatEquation": effect("heat_equation", 0, ("layers",), ("layers",)),
    M + "densification.densification": effect("densification", 0, ("layers",), ("layers",)),
    M + "evaluation.evaluate": lambda I, st, fn, b: app("call:evaluate", *[I.snap(v, st) for v in b.values()]),
    "cosipy.cpkernel.io.IOClass.__init__": lambda I, st, fn, b: NONE,
    "cosipy.cpkernel.io.IOClass.create_local_restart_dataset": lambda I, st, fn, b: sym("RESTART"),
}


def core_setup(I, st, g, vals):
    start_ghost(I, st)
    I.named_refs["GRID"] = sym_grid(I, st)
    I.series_of = (P("DATA"),)


OUTPUTS = ("indY indX RESTART RAIN SNOWFALL LWin LWout H LE B QRR MB surfMB Q SNOWHEIGHT TOTALHEIGHT TS ALBEDO NLAYERS ME "
           "intMB EVAPORATION SUBLIMATION CONDENSATION DEPOSITION REFREEZE subM Z0 surfM new_snow_height "
           "new_snow_timestamp old_snow_timestamp MOL LAYER_HEIGHT LAYER_RHO LAYER_T LAYER_LWC LAYER_CC LAYER_POROSITY "
           "LAYER_ICE_FRACTION LAYER_IRREDUCIBLE_WATER LAYER_REFREEZE stake_names stat df").split()
RENAME = {f"returned value {i}": f"output {x}" for i, x in enumerate(OUTPUTS)}
PRECIP = {"both": dict(RRR=1, SNOWFALL=1), "RRR": dict(RRR=1, SNOWFALL=0), "SNOWFALL": dict(RRR=0, SNOWFALL=1)}
LONGWAVE = {"LWin+N": dict(LWin=1, N=1), "LWin": dict(LWin=1, N=0), "N": dict(LWin=0, N=1)}
CORE = []
for w, stakes in itertools.product((True, False), (True, False)):
    for p, l in itertools.product(PRECIP, LONGWAVE):
        quick = (p == "both" or l == "LWin+N") and (stakes or p == "RRR")
        has = {app("in", const(k), P("DATA")): TRUE if v else FALSE for k, v in {**PRECIP[p], **LONGWAVE[l]}.items()}
        n = (f"time loop [{'coupled' if w else 'standalone'}{', stakes' if stakes else ''}, precipitation: {p}, "
             f"longwave: {l}]")
        o = Eq(n, "cosipy.cpkernel.cosipy_core.cosipy_core", "spec.core.simulate",
               ["DATA", "indY", "indX", "GRID_RESTART", "stake_names" if stakes else NONE,
                "stake_data" if stakes else NONE], stubs=STUBS, setup=core_setup, assume=STEPS,
               consts={"Config.WRF_X_CSPY": TRUE if w else FALSE, "Config.stake_evaluation": TRUE if stakes else FALSE,
                       **has, **({"Config.force_use_TP": FALSE} if p == "SNOWFALL" else {})}, rename=RENAME)
        o.tier = "quick" if quick else "thorough"
        add_ob(o)
        CORE.append(n)


for w in (True, False):
    has = {app("in", const(k), P("DATA")): TRUE if v else FALSE
           for k, v in {**PRECIP["SNOWFALL"], **LONGWAVE["LWin+N"]}.items()}
    n = f"time loop [{'coupled' if w else 'standalone'}, total precipitation demanded but missing]"
    add_ob(Eq(n, "cosipy.cpkernel.cosipy_core.cosipy_core", "spec.core.simulate",
              ["DATA", "indY", "indX", "GRID_RESTART", NONE, NONE], stubs=STUBS, setup=core_setup, labels=[],
              consts={"Config.WRF_X_CSPY": TRUE if w else FALSE, "Config.stake_evaluation": FALSE, **has,
                      "Config.force_use_TP": TRUE}, rename=RENAME))
    CORE.append(n)


def core(*patterns):
    """The time loop obligations, restricted to the named observations."""
    rx = re.compile("|".join(patterns))
    return [(n, rx) for n in CORE]


# ---------------------------------------------------------------- the domain and its files
def files_setup(I, st, g, vals):
    start_ghost(I, st, ("setitem", "setattr", "m:to_csv", "m:to_netcdf", "os.makedirs"))
    I.functional = True
    a, r = completed(2, OUTPUTS)
    I.ext_stubs = {"dask.distributed.as_completed": a, "distributed.as_completed": a}
    I.method_stubs = {"submit": submit_stub, "result": result_method(r)}


def result_method(r):
    return r


NOTHING = lambda I, st, fn, b: NONE
FILES = {"cosipy.config.Config": NOTHING, "cosipy.constants.Constants": NOTHING, "cosipy.config.SlurmConfig": NOTHING}
ATM = ("RAIN", "SNOWFALL", "LWin", "LWout", "H", "LE", "B", "QRR", "TS", "ALBEDO", "Z0")
INTERNAL = ("surfMB", "MB", "Q", "SNOWHEIGHT", "TOTALHEIGHT", "LAYERS", "ME", "intMB", "EVAPORATION", "SUBLIMATION",
            "CONDENSATION", "DEPOSITION", "REFREEZE", "subM", "surfM", "MOL")
LAYERED = ("HEIGHT", "RHO", "T", "LWC", "CC", "POROSITY", "ICE_FRACTION", "IRREDUCIBLE_WATER", "REFREEZE")
DOMAIN = []
SELECTED = {"all variables": lambda i: True, "every other variable": lambda i: i % 2, "no variable": lambda i: False}


def some(xs, f):
    return names(*[x for i, x in enumerate(xs) if f(i)])


for wrf, restart, stakes, (sel, f) in [
        (False, False, True, ("all variables", SELECTED["all variables"])),
        (False, True, False, ("every other variable", SELECTED["every other variable"])),
        (True, False, False, ("no variable", SELECTED["no variable"])),
        (True, True, True, ("every other variable", lambda i: i % 2 == 0)),
        (True, True, False, ("all variables", SELECTED["all variables"]))]:
    n = (f"domain run [{'WRF' if wrf else 'lat/lon'}{', restart' if restart else ''}{', stakes' if stakes else ''}, "
         f"{sel} stored]")
    add_ob(Eq(n, "COSIPY.run_cosipy", "spec.files.domain",
              ["cluster", io_object(DATA=sym("p:DATA"), RESULT=sym("RESULT"), RESTART=sym("RESTART"),
                                    GRID_RESTART=sym("PREVIOUS"), atm=some(ATM, f), internal=some(INTERNAL, f),
                                    full=some(LAYERED, f), ny=sym("ny"), nx=sym("nx"), time=sym("nt")),
               "DATA", sym("RESULT"), sym("RESTART"), names()], stubs=FILES, setup=files_setup,
              consts={"Config.WRF": TRUE if wrf else FALSE, "Config.restart": TRUE if restart else FALSE,
                      "Config.stake_evaluation": TRUE if stakes else FALSE, "Config.slurm_use": FALSE}))
    DOMAIN.append(n)


def domain(*patterns):
    rx = re.compile("|".join(patterns))
    return [(n, rx) for n in DOMAIN]


# ---------------------------------------------------------------- the driver's input and output files
IOC = "cosipy.cpkernel.io.IOClass."


def attributes(*names):
    """Observe the named attributes of the first argument."""
    def f(r):
        o = r.state.heap[r.args[0].a[0]].f
        return {f"attribute {x}": r.interp.snap(o[x], r.state) if x in o else NOT_CALLED for x in names}
    return f


def io_setup(I, st, g, vals):
    start_ghost(I, st, ("setitem", "setattr", "m:to_netcdf", "os.makedirs"))
    I.functional = True
    I.ext_stubs = {"xarray.Dataset": lambda I, a, kw, st: sym("FILE") if not a and not kw else None}
    I.strings = {sym("Config.time_start"), sym("Config.time_end"), sym("Config.output_prefix")}


for t in ("T2,RH2,U2,RAIN,SNOWFALL,RRR,PRES,N,G,LWin,Z0,TS", "", "ALBEDO"):
    v = {"Config.output_atm": const(t), "Config.output_internal": const("ME,MB" if t else ""),
         "Config.output_full": const("HEIGHT,RHO" if t else "")}
    for d in ("DATA", NONE):
        add_ob(Eq(f"output selection [{t or 'nothing'}{'' if d is NONE else ', grid point'}]", IOC + "__init__",
                  "spec.files.configured", [io_object(), d], consts={**v, app("is", P("DATA"), NONE): FALSE}, setup=io_setup,
                  extra=attributes("atm", "internal", "full", "time", "DATA", "RESULT", "RESTART")))
add_ob(Eq("forcing", IOC + "create_data_file", "spec.files.forcing", [io_object()], setup=io_setup,
          extra=attributes("DATA", "ny", "nx", "time", "restart_date", "GRID_RESTART")))
for n, c, sp in [("result file", "create_result_file", "results"), ("restart file", "create_restart_file", "state"),
                 ("restart record", "create_local_restart_dataset", "cell_state")]:
    add_ob(Eq(n, IOC + c, "spec.files." + sp, [io_object(DATA=sym("p:DATA"))], setup=io_setup,
              extra=attributes("RESULT", "RESTART")))
add_ob(Eq("input range", IOC + "check_field", "spec.files.plausible", [io_object(), "field", "_max", "_min"]))


def checked(I, st, fn, b):
    field, hi, lo = list(b.values())[-3:]
    I.put(st, ghost(I, st), f"range#{path_of(field)}", mk("tup", hi, lo))
    return mk("truth", app("plausible", field, hi, lo))


add_ob(Eq("input ranges", IOC + "check_input_data", "spec.files.ranges", [io_object(DATA=sym("p:DATA"))], setup=io_setup,
          stubs={IOC + "check_field": checked, "spec.files.plausible": checked}, needs=[IOC + "check_field"]))


def given(name, value):
    """Stub of a file reader or creator: the object it leaves in the given attribute."""
    def f(I, st, fn, b):
        I.put(st, next(iter(b.values())), name, sym(value))
        return sym(value)
    return f


def ran(I, st, fn, b):
    for x in ("DATA", "RESULT", "RESTART"):
        I.put(st, ghost(I, st), f"domain#{x}", I.snap(b[x], st))
    return NONE


MAIN = {**FILES, "COSIPY.run_cosipy": ran, "spec.files.domain": ran, IOC + "create_data_file": given("DATA", "DATA"),
        IOC + "create_result_file": given("RESULT", "RESULT"), IOC + "create_restart_file": given("RESTART", "RESTART"),
        "COSIPY.start_logging": NOTHING}
for slurm in (False, True):
    add_ob(Eq(f"program [{'SLURM' if slurm else 'local'}]", "COSIPY.main", "spec.files.program", [], setup=io_setup, stubs=MAIN,
              consts={"Config.slurm_use": TRUE if slurm else FALSE},
              needs=["COSIPY.run_cosipy", IOC + "create_data_file", IOC + "create_result_file", IOC + "create_restart_file"]))


add_ob(Eq("stake comparison", M + "evaluation.evaluate", "spec.files.compared", ["stake_names", "stake_data", "df"]))

# ---------------------------------------------------------------- settings
CFG = "cosipy.config."


def klass(qual):
    return lambda I, st: mk("cls", I.repo.cls(qual))


def instance(qual):
    return lambda I, st: I.new(st, "inst", I.repo.cls(qual))


def settings_setup(I, st, g, vals):
    start_ghost(I, st, ("setitem", "setattr"))
    I.functional = True
    I.ext_stubs = {"argparse.ArgumentParser": lambda I, a, kw, st: sym("PARSER")}
    I.method_stubs = {"add_argument": option, "parse_known_args": lambda I, v, a, kw, st: mk("tup", sym("ARGS"), sym("REST")),
                      "parse_args": lambda I, v, a, kw, st: sym("ARGS")}


def option(I, v, args, kw, st):
    """A command line option: recorded by its long name."""
    names = [cval(a) for a in args if is_str(a)]
    rec = ghost(I, st)
    for n in names:
        for k in ("dest", "default", "type", "required", "nargs", "action", "const"):
            x = kw.get(k)
            if x is None or (k, x) in (("required", FALSE), ("action", const("store"))):
                continue
            I.put(st, rec, f"option#{n} {k}", I.snap(x, st))
    return NONE


def step(name):
    """Stub: one step of loading a settings file, a function of the class and its input."""
    def f(I, st, fn, b):
        vals = [I.snap(v, st) for k, v in b.items() if k not in ("cls", "self")]
        I.put(st, ghost(I, st), f"{name}#", mk("tup", *vals))
        return app("step:" + name, *vals)
    return f


CONSTANTS_INIT = "cosipy.constants.Constants.__init__"
add_ob(Eq("settings at import [config]", CFG + "main", "spec.settings.import_config", [], setup=settings_setup,
          stubs={CFG + "Config.__init__": step("config"), CFG + "SlurmConfig.__init__": step("cluster")},
          needs=[CFG + "Config.__init__", CFG + "SlurmConfig.__init__"]))
add_ob(Eq("settings at import [constants]", "cosipy.constants.main", "spec.settings.import_constants", [], setup=settings_setup,
          stubs={CONSTANTS_INIT: step("constants")}, needs=[CONSTANTS_INIT]))
add_ob(AtImport("settings at import", CFG + "Config", "cosipy.constants.Constants"))
TABLE = [klass(CFG + "Config"), "config_table"]
add_ob(Eq("configuration overrides", CFG + "Config.set_correct_config", "spec.settings.configured", TABLE,
          setup=settings_setup))
add_ob(Eq("constants overrides", "cosipy.constants.Constants.set_correct_config", "spec.settings.parameters",
          [klass("cosipy.constants.Constants"), "config_table"], setup=settings_setup))
add_ob(Eq("cluster overrides", CFG + "SlurmConfig.set_correct_config", "spec.settings.cluster",
          [klass(CFG + "SlurmConfig"), "config_table"], setup=settings_setup))
add_ob(Eq("settings assigned", CFG + "TomlLoader.set_config_values", "spec.settings.settings", TABLE,
          setup=settings_setup))
add_ob(Eq("settings file", CFG + "TomlLoader.get_raw_toml", "spec.settings.raw", ["file_path"], setup=settings_setup))
add_ob(Eq("command line", CFG + "get_user_arguments", "spec.settings.options", [], setup=settings_setup))
for c, x in ((CFG + "Config", "config"), (CFG + "SlurmConfig", "slurm"), ("cosipy.constants.Constants", "constants")):
    add_ob(Eq(f"settings read [{x}]", c + ".__init__", "spec.settings.read_" + x, [instance(c)], setup=settings_setup,
              stubs={c + ".load": step("loaded"), "spec.settings.loaded": step("loaded"),
                     CFG + "get_user_arguments": lambda I, st, fn, b: sym("ARGS")}, needs=[c + ".load"]))
    add_ob(Eq(f"settings loaded [{c.split('.')[-1]}]", c + ".load", "spec.settings.loaded", [klass(c), "path"],
              setup=settings_setup, stubs={
                  c + ".set_correct_config": step("corrected"), "spec.settings.corrected": step("corrected"),
                  CFG + "TomlLoader.get_raw_toml": step("raw"), "spec.settings.raw": step("raw"),
                  CFG + "TomlLoader.set_config_values": step("assigned"), "spec.settings.settings": step("assigned")},
              needs=[c + ".set_correct_config", CFG + "TomlLoader.get_raw_toml", CFG + "TomlLoader.set_config_values"]))


# ---------------------------------------------------------------- radiation on sloping, shaded terrain
RAD = M + "radCor."


def by_value(I, st, g, vals):
    I.functional = True


RADIATION = []
for c, sp, a, kept in [
    ("solarFParallel", "sun", "lat lon timezone_lon day hour", ()), ("Fdif_Neustift", "diffuse_fraction", "doy zeni Rg", ()),
    ("radCor2D", "on_slope", "doy zeni azi angslo azislo Rm zeni_thld", (("Fdif_Neustift", "diffuse_fraction", None),)),
    ("correctRadiation", "corrected", "lat lon timezone_lon doy hour angslo azislo Rm zeni_thld",
     (("solarFParallel", "sun", 3), ("radCor2D", "on_slope", None))),
    ("solpars", "parameters", "lat", ()), ("haversine", "distance", "lat1 lon1 lat2 lon2", ()),
    ("relshad", "lit", "dem mask lats lons solh sdirfn", (("haversine", "distance", None),)),
    ("LUTshad", "shading", "solpars timecorr lat elvgrid maskgrid lats lons STEP TCART", (("relshad", "lit", None),)),
    ("LUTsvf", "sky_view", "elvgrid maskgrid slopegrid aspectgrid lats lons", (("relshad", "lit", None),)),
    ("calcRad", "all_sky", "solPars timecorr doy hour lat tempgrid pgrid rhgrid cldgrid elvgrid maskgrid slopegrid "
                           "aspectgrid shad1yr gridsvf STEP TCART", ()),
]:
    stubs = {}
    for x, y, n in kept:
        stubs[RAD + x] = stubs["spec.radiation." + y] = opaque(y, n)
    add_ob(Eq("radiation: " + c, RAD + c, "spec.radiation." + sp, a.split(), setup=by_value, stubs=stubs,
              needs=[RAD + x for x, _y, _n in kept]))
    RADIATION.append("radiation: " + c)


# ---------------------------------------------------------------- forcing from a weather station
AWS = "cosipy.utilities.aws2cosipy.aws2cosipy."
PROGRAM_STATE = {}  # module -> names of variables set by the program from the settings file and command line


CFG_ = sym("CFG")


def setting(table, key):
    return app(".", app(".", CFG_, const(table)), const(key))


COLUMNS = {setting("names", k): const(f"<{k}>") for k in  # columns have distinct names
           ("PRES_var", "T2_var", "RH2_var", "G_var", "RRR_var", "U2_var", "LWin_var", "SNOWFALL_var", "N_var")}


def name_globals(I, module):
    """The variables in which a tool keeps its settings and command line arguments."""
    for n in declared_global(I.repo.module(module).tree):
        arguments = "arg" in n.lower()
        I.globcache[module, n] = sym("ARGS") if arguments else CFG_
        I.global_names[n] = "arguments" if arguments else "settings"


def loaded_settings(*modules, given=None):
    def setup(I, st, g, vals):
        start_ghost(I, st, ("setitem", "setattr", "m:to_netcdf", "os.system", "os.makedirs"))
        I.watch, I.watched = ("complete#", "complete_point#"), ("m:to_netcdf",)
        I.functional = True
        I.keeps = {"fn:typed": ("index",), "upd": ("index",)}
        I.given = {**COLUMNS, **(given or {})}
        I.ext_stubs = {"xarray.Dataset": lambda I, a, kw, st: sym("FILE") if not a and not kw else None}
        for m in modules:
            name_globals(I, m)
    return setup


AWS_SETTINGS = loaded_settings(AWS[:-1], "spec.station")
STATION = []


def station(code, spec, args, kept=(), **kw):
    stubs = {}
    for x, y in kept:
        stubs[AWS + x] = stubs["spec.station." + y] = opaque(y, None)
    add_ob(Eq("station: " + code, AWS + code, "spec.station." + spec, args.split() if isinstance(args, str) else args, setup=AWS_SETTINGS, stubs=stubs,
              needs=[AWS + x for x, _y in kept], **kw))
    STATION.append("station: " + code)


station("read_input_file", "table", "input_path")
station("convert_to_numeric", "numbers", "series")
station("set_order_and_type", "typed", "dataframe replace_pressure", [("convert_to_numeric", "numbers")])
station("check_data", "bounded", "dataset dataframe", [("check", "within")])
station("get_time_slice", "period", "dataframe start_date end_date")
station("set_bias", "lapsed", "data lapse_type altitude limit")
for v in ("HGT", "ASPECT", "SLOPE", "MASK", "T2", "RH2", "U2", "G", "PRES", "RRR", "SNOWFALL", "LWin", "N"):
    add_ob(Eq(f"station: metadata of {v}", AWS + "get_variable_metadata", "spec.station.described",
              [lambda I, st, v=v: const(v)], setup=AWS_SETTINGS))
    STATION.append(f"station: metadata of {v}")
station("set_dataset_coordinates", "placed", "dataset latitude longitude")
station("set_zero_field", "zeros", "time_index lat_index lon_index")
station("get_pressure_bias", "barometric", "data height")
for c, x in (("timelatlon", "in_time_and_space"), ("latlon", "in_space"), ("timelatlon_point", "in_time_at_point"),
             ("point", "at_point")):
    station("add_variable_along_" + c, x, "ds var name units long_name")
station("check", "range_warning", "field max_bound min_bound")
station("check_for_nan", "complete", "ds")
station("check_for_nan_point", "complete_point", "ds")
station("check_temperature_bounds", "temperature_plausible", "temperature")
VALUES = lambda I, st: app("given", const("values"))  # of whose array only the result matters
station("set_relative_humidity_bounds", "humidity", [VALUES])
station("nansumwrapper", "total", "a")


def variable(I, st, fn, b):
    """Adding a variable to the file: recorded under its name."""
    ds, var, name, units, long_name = list(b.values())
    I.put(st, ghost(I, st), f"variable {cval(name) if is_str(name) else show(name)}#",
          I.snap(mk("tup", const(HOW[fn.name]), ds, var, units, long_name), st))
    return ds


def happened(name):
    def f(I, st, fn, b):
        I.put(st, ghost(I, st), f"{name}#", I.snap(mk("tup", *b.values()), st))
        return NONE
    return f


ADDED = {"add_variable_along_timelatlon": "in_time_and_space", "add_variable_along_latlon": "in_space",
         "add_variable_along_timelatlon_point": "in_time_at_point", "add_variable_along_point": "at_point"}
HOW = {**{c: x for c, x in ADDED.items()}, **{x: x for x in ADDED.values()}}
PARTS = {}
for c, x in ADDED.items():
    PARTS[AWS + c] = PARTS["spec.station." + x] = variable
for c, x in (("check_data", "bounded"), ("check_for_nan", "complete"), ("check_for_nan_point", "complete_point"),
             ("check_temperature_bounds", "temperature_plausible")):
    PARTS[AWS + c] = PARTS["spec.station." + x] = happened(x)
for c, x in (("read_input_file", "table"), ("set_order_and_type", "typed"), ("get_time_slice", "period"),
             ("get_pressure_bias", "barometric"), ("set_relative_humidity_bounds", "humidity"),
             ("nansumwrapper", "total"), ("set_bias", "lapsed")):
    PARTS[AWS + c] = PARTS["spec.station." + x] = opaque(x, None)
for wrf, static in ((False, False), (False, True), (True, False), (True, True)):
    n = f"station: point forcing [{'WRF grid' if wrf else 'regular grid'}, {'static file' if static else 'no static file'}]"
    add_ob(Eq(n, AWS + "create_1D_input", "spec.station.point",
              ["cs_file", "cosipy_file", lambda I, st, s=static: const("static.nc") if s else NONE, "start_date", "end_date"],
              setup=loaded_settings(AWS[:-1], "spec.station", given={setting("coords", "WRF"): const(wrf)}), stubs=PARTS,
              needs=[q for q in PARTS if q.startswith(AWS)]))
    STATION.append(n)

for x, y, n in (("solpars", "parameters", 2), ("LUTsvf", "sky_view", None), ("LUTshad", "shading", None),
                ("calcRad", "all_sky", None), ("correctRadiation", "corrected", None)):
    PARTS[RAD + x] = PARTS["spec.station." + y] = opaque(y, n)
for wrf, module, lut in ((False, "Wohlfahrt2016", False), (True, "Wohlfahrt2016", False), (False, "none", False),
                         (False, None, False), (False, "Moelg2009", True), (False, "Moelg2009", False),
                         (True, "Moelg2009", True), (False, "unknown", False)):
    n = f"station: gridded forcing [{'WRF' if wrf else 'regular'} grid, {module}{', look-up table' if lut else ''}]"
    given = {setting("coords", "WRF"): const(wrf), setting("radiation", "radiationModule"): const(module),
             setting("radiation", "LUT"): const(lut)}
    if module == "Moelg2009":  # requires cloud cover
        given[app("has", const("<N_var>"))] = TRUE
    add_ob(Eq(n, AWS + "create_2D_input", "spec.station.field",
              "cs_file cosipy_file static_file start_date end_date x0 x1 y0 y1".split(),
              setup=loaded_settings(AWS[:-1], "spec.station", given=given), stubs=PARTS,
              needs=[q for q in PARTS if not q.startswith("spec.")]))
    STATION.append(n)

CONFIG = "cosipy.utilities.config_utils.UtilitiesConfig"
TOOLS = []
HELP = ("write p:parser.description", "write p:parser.prog")


def tool(name, code, spec, args, stubs=None, setup=settings_setup, needs=(), **kw):
    add_ob(Eq(name, code, spec, args, setup=setup, stubs=stubs, needs=list(needs), **kw))
    return name


TOOLS += [
    tool("tools: settings file", "cosipy.utilities.config_utils.TomlLoader.get_raw_toml", "spec.tools.raw", ["file_path"]),
    tool("tools: tables", CONFIG + ".set_config_values", "spec.tools.settings", [klass(CONFIG), "config_table"]),
    tool("tools: loading", CONFIG + ".load", "spec.tools.loaded", [klass(CONFIG), "path"],
         {CONFIG + ".set_config_values": step("assigned"), "spec.tools.settings": step("assigned"),
          "cosipy.utilities.config_utils.TomlLoader.get_raw_toml": step("raw"), "spec.tools.raw": step("raw")}),
    tool("tools: chosen table", CONFIG + ".get_config_expansion", "spec.tools.expansion", [instance(CONFIG), "name"]),
    tool("tools: settings option", CONFIG + ".set_arg_parser", "spec.tools.parser", [klass(CONFIG)]),
]
ARGUMENTS = {}


def tool_parts(module):
    """Stubs for reading the settings of a tool: each step is recorded with its operands."""
    def options(I, st, fn, b):
        I.put(st, ghost(I, st), "options#", I.snap(list(b.values())[0], st))
        return sym("ARGS")

    def load(I, st, fn, b):
        I.put(st, ghost(I, st), "load#", I.snap(b["path"], st))
        return NONE
    return {module + "get_user_arguments": options, "spec.tools.options": options, CONFIG + ".load": load,
            CONFIG + ".get_config_expansion": lambda I, st, fn, b: app("table", b["name"]),
            CONFIG + ".set_arg_parser": lambda I, st, fn, b: sym("PARSER")}


def entry(code, *args):
    """Stub for the work of a tool: recorded with its arguments."""
    def f(I, st, fn, b):
        I.put(st, ghost(I, st), f"{code}#", I.snap(mk("tup", *b.values()), st))
        return NONE
    return f


WORK = {AWS + "create_1D_input": entry("point"), "spec.station.point": entry("point"),
        AWS + "create_2D_input": entry("field"), "spec.station.field": entry("field"),
        AWS + "load_config": lambda I, st, fn, b: mk("tup", sym("ARGS"), app("table", *b.values())),
        "spec.station.loaded": lambda I, st, fn, b: mk("tup", sym("ARGS"), app("table", *b.values()))}
STATION += [
    tool("station: options", AWS + "get_user_arguments", "spec.station.options", ["parser"], skip=HELP),
    tool("station: settings", AWS + "load_config", "spec.tools.tool_settings", ["module_name"], tool_parts(AWS),
         needs=[AWS + "get_user_arguments", CONFIG + ".load", CONFIG + ".get_config_expansion", CONFIG + ".set_arg_parser"]),
    tool("station: program", AWS + "main", "spec.station.program", [], WORK, AWS_SETTINGS,
         needs=[AWS + "load_config", AWS + "create_1D_input", AWS + "create_2D_input"]),
]

# ---------------------------------------------------------------- forcing from a weather model
WRF = "cosipy.utilities.wrf2cosipy.wrf2cosipy."
WRF_SETTINGS = loaded_settings(WRF[:-1], "spec.wrf")
WRF_PARTS = {WRF + "wrf_rh": opaque("humidity"), "spec.wrf.humidity": opaque("humidity")}
for c, x in (("add_variable_along_timelatlon", "in_time_and_space"), ("add_variable_along_latlon", "in_space")):
    WRF_PARTS[WRF + c] = WRF_PARTS["spec.wrf." + x] = variable


def compared_range(I, st, fn, b):
    I.put(st, ghost(I, st), f"range {path_of(list(b.values())[0])}#", I.snap(mk("tup", *b.values()), st))
    return NONE


WRF_PARTS[WRF + "check"] = WRF_PARTS["spec.wrf.within"] = compared_range
PARTS[AWS + "check"] = PARTS["spec.station.within"] = compared_range
MODEL = []
for c, x, a in (("add_variable_along_timelatlon", "in_time_and_space", "ds var name units long_name"),
                ("add_variable_along_latlon", "in_space", "ds var name units long_name"),
                ("check", "within", "field max_bound min_bound"), ("wrf_rh", "humidity", "T2 Q2 PSFC")):
    MODEL.append(tool("weather model: " + c, WRF + c, "spec.wrf." + x, a.split(), setup=WRF_SETTINGS))
MODEL += [
    tool("weather model: forcing", WRF + "create_input", "spec.wrf.forcing", "wrf_file cosipy_file start_date end_date".split(),
         WRF_PARTS, WRF_SETTINGS,
         assume=[(eq(app(".", app(".", sym("CFG"), const("constants")), const("lu_class")), num(0)), False)],  # classes start at 1
         needs=[q for q in WRF_PARTS if not q.startswith("spec.")]),
    tool("weather model: options", WRF + "get_user_arguments", "spec.wrf.options", ["parser"], skip=HELP),
    tool("weather model: settings", WRF + "load_config", "spec.tools.tool_settings", ["module_name"], tool_parts(WRF),
         needs=[WRF + "get_user_arguments", CONFIG + ".load", CONFIG + ".get_config_expansion", CONFIG + ".set_arg_parser"]),
    tool("weather model: program", WRF + "main", "spec.wrf.program", [], {
        WRF + "create_input": entry("forcing"), "spec.wrf.forcing": entry("forcing"),
        WRF + "load_config": lambda I, st, fn, b: mk("tup", sym("ARGS"), app("table", *b.values())),
        "spec.wrf.loaded": lambda I, st, fn, b: mk("tup", sym("ARGS"), app("table", *b.values()))}, WRF_SETTINGS,
        needs=[WRF + "load_config", WRF + "create_input"]),
]

# fields are handed to the array library in a form it accepts
PLAIN = {}
for p, *q in (("C24", AWS + "create_1D_input", AWS + "create_2D_input"), ("C25", WRF + "create_input"),
              ("C30", "cosipy.utilities.createStatic.create_static_file.main")):
    PLAIN[p] = [f"fields stored by value [{p}]"]
    add_ob(Plain(PLAIN[p][0], *q))

# ---------------------------------------------------------------- sample settings
SET = "cosipy.utilities.setup_cosipy.setup_cosipy."


DISK = ("shutil.copyfile", "shutil.copytree", "shutil.move", "shutil.rmtree", "os.makedirs", "os.mkdir", "os.remove", "os.unlink",
        "os.rename", "os.replace", "os.system", "subprocess.run", "open", "toml.dump", "m:write", "m:write_text", "m:unlink", "m:rename",
        "m:replace", "m:mkdir", "setitem", "setattr")


def disk_setup(I, st, g, vals):
    """Everything that changes the disk is recorded."""
    settings_setup(I, st, g, vals)
    I.recorded = DISK


def step_of(name, result=None, after=None):
    """Stub: the step is recorded with its operands; its result depends on them."""
    def f(I, st, fn, b):
        v = mk("tup", *[I.snap(x, st) for x in b.values()])
        text = [cval(x).rsplit("/", 1)[-1] for x in v.a if is_str(x)] + [
            cval(x.a[1][-1]).rsplit("/", 1)[-1] for x in v.a if x.k == "app" and x.a[0] == "concat" and is_str(x.a[1][-1])]
        n = I.__dict__.setdefault("steps", {})
        k = f"{name} {text[0] if text else ''}"
        n[k] = n.get(k, 0) + 1
        I.put(st, ghost(I, st), f"{k}#{n[k]}", v)
        if after:
            w = f"{after} {text[0] if text else ''}#{n[k]}"
            I.put(st, ghost(I, st), f"{w} before {k}", st.heap[ghost(I, st).a[0]].f.get(w, NOT_CALLED))
        return NONE if result is None else app("fn:" + name, *v.a)
    return f


def both(pairs, make):
    out = {}
    for c, x in pairs:
        out[c] = out[x] = make(x.rsplit(".", 1)[1])
    return out


def AGREED(I, st, fn, b):
    """The answer, whatever the wording of the question."""
    return app("fn:agreed")


SETUP = [
    tool("sample settings: options", SET + "get_user_arguments", "spec.setup.options", [], setup=disk_setup),
    tool("sample settings: required", SET + "check_file_exists", "spec.setup.required", ["file_path"], setup=disk_setup),
    tool("sample settings: location", SET + "get_sample_directory", "spec.setup.samples", [], setup=disk_setup),
    tool("sample settings: consent", SET + "get_user_confirmation", "spec.setup.agreed", ["prompt"],
         {SET + "get_user_confirmation": opaque("agreed"), "spec.setup.agreed": opaque("agreed")}, setup=disk_setup, inductive="fn:agreed"),
    tool("sample settings: copy", SET + "copy_file_to_target", "spec.setup.install",
         "basename source_dir target_dir silent_overwrite".split(),
         {SET + "get_user_confirmation": AGREED, "spec.setup.agreed": AGREED},
         setup=disk_setup, needs=[SET + "get_user_confirmation"]),
    tool("sample settings: program", SET + "main", "spec.setup.program", [], {
        **both([(SET + "get_user_arguments", "spec.setup.options"), (SET + "get_sample_directory", "spec.setup.samples")],
               opaque),
        **both([(SET + "check_file_exists", "spec.setup.required")], step_of),
        **both([(SET + "copy_file_to_target", "spec.setup.install")], lambda n: step_of(n, after="required"))},
         setup=disk_setup, needs=[SET + x for x in ("get_user_arguments", "get_sample_directory", "check_file_exists",
                                  "copy_file_to_target")]),
]

# ---------------------------------------------------------------- static file
DEM = "cosipy.utilities.createStatic.create_static_file."


def dem_setup(I, st, g, vals):
    loaded_settings(DEM[:-1], "spec.static")(I, st, g, vals)
    I.recorded = DISK + ("m:to_netcdf",)


def section(I, st, fn, b):
    I.put(st, ghost(I, st), "settings of#", mk("tup", *b.values()))
    return mk("tup", sym("ARGS"), CFG_)


def inserted(I, st, fn, b):
    ds, var, name, units, long_name = list(b.values())
    I.put(st, ghost(I, st), f"variable {cval(name) if is_str(name) else show(name)}#",
          I.snap(mk("tup", ds, var, units, long_name), st))
    return NONE


STATIC = [
    tool("static file: folder", DEM + "check_folder_path", "spec.static.slashed", ["path"]),
    tool("static file: completeness", DEM + "check_for_nan", "spec.static.complete", ["ds", "var"], setup=dem_setup),
    tool("static file: variable", DEM + "insert_var", "spec.static.inserted", "ds var name units long_name".split(),
         setup=dem_setup),
    tool("static file: options", DEM + "get_user_arguments", "spec.static.options", ["parser"], skip=HELP),
    tool("static file: settings", DEM + "load_config", "spec.tools.tool_settings", ["module_name"], tool_parts(DEM),
         needs=[DEM + "get_user_arguments", CONFIG + ".load", CONFIG + ".get_config_expansion", CONFIG + ".set_arg_parser"]),
    tool("static file: program", DEM + "main", "spec.static.program", [], {
        DEM + "load_config": section, "spec.static.loaded": section, DEM + "insert_var": inserted,
        "spec.static.inserted": inserted, DEM + "check_for_nan": happened("complete"),
        "spec.static.complete": happened("complete")}, setup=dem_setup,
         needs=[DEM + x for x in ("load_config", "insert_var", "check_for_nan")]),
]

# ---------------------------------------------------------------- old settings
OLD = "convert_config."
PAIRS = mk("dct", (const("A"), mk("tup", const("x"), const("y"))), (const("B"), mk("tup", const("z"))))


def special(r):
    """The converted settings that do not keep their name or place."""
    d = r.obs.get("returned value", NONE)
    t = {cval(k): v for k, v in d.a} if d.k == "dct" else {}
    f = t.get("FILENAMES", NONE)
    return {"output prefix": next((v for k, v in f.a if is_str(k) and cval(k) == "output_prefix"), NONE) if f.k == "dct" else NONE,
            "output variables": t.get("OUTPUT_VARIABLES", NONE)}


CONVERT = [o.name for o in CONVERSION] + [
    tool("conversion: tables", OLD + "set_module_params", "spec.conversion.tables",
         ["module", lambda I, st: I.new(st, "dict", v=mk("dct", (const("Z"), sym("p:before")))),
          lambda I, st: I.new(st, "dict", v=PAIRS)]),
    tool("conversion: other names", OLD + "get_config_params", "spec.conversion.special", [],
         {OLD + "set_module_params": old}, extra=special, labels=["output prefix", "output variables", "when an error is raised"]),
    tool("conversion: outputs", OLD + "get_output_params", "spec.conversion.outputs", []),
    tool("conversion: file", OLD + "write_toml", "spec.conversion.written", ["parameters", "filename"], setup=disk_setup),
    tool("conversion: program", OLD + "main", "spec.conversion.program", [], {
        **both([(OLD + "get_config_params", "spec.conversion.settings"),
                (OLD + "get_constants_params", "spec.conversion.constants"),
                (OLD + "get_utilities_params", "spec.conversion.utilities")], opaque),
        **both([(OLD + "write_toml", "spec.conversion.written")], step_of)}, setup=disk_setup,
        needs=[OLD + x for x in ("get_config_params", "get_constants_params", "get_utilities_params", "write_toml")]),
]

ACCESS = ["get_node_" + c for c in FIELDS] + ["get_" + c for c in FIELDS]
SETTERS = ["set_node_" + c for c in STORED] + ["set_" + c for c in STORED]
REMESH = ["update_grid", "log_profile", "adaptive_profile", "merge_nodes", "correct_layer", "update_node", "split_node",
          "merge_snow_with_glacier"]
HEIGHTS = ["get_depth", "get_node_depth", "get_snow_heights", "get_ice_heights", "get_number_layers",
           "get_number_snow_layers", "get_total_snowheight", "get_total_height"]
CLOCK = ["get_fresh_snow_props", "set_fresh_snow_props", "set_fresh_snow_props_to_old_props",
         "set_fresh_snow_props_update_time", "set_fresh_snow_props_height"]

ASSUMPTIONS = [
    "arithmetic is exact (floating-point rounding, overflow and NaN propagation are not modelled)",
    "measurement heights, roughness length and air temperature are positive; layer indices are not negative; a profile "
    "has at least one layer on entry",
    "library calls (numpy, xarray, pandas) are uninterpreted functions with their documented algebraic laws",
    "the reference definitions in /verif/spec are the oracle",
]

ERR = "^when an error"


PROPERTIES = {
    "C01": ["energy balance residual", "surface temperature", "secant", "surface fluxes", "subsurface interpolation"]
    + core("output (TS|ME|LWin|LWout|H|LE|B|QRR|surfM|MOL)$", "call surface_temperature#", "call penetrating_radiation#"),
    "C02": ["subsurface interpolation", "surface fluxes", "surface temperature"]
    + core("call surface_temperature#", "output (LWin|LWout|H|LE|B|QRR|MOL)$", ERR),
    "C03": core("output", "number of returned", ERR),
    "C04": ["add_fresh_snow"] + core("output (RAIN|SNOWFALL)$", "call add_fresh_snow#", "call percolation#0.argument", ERR),
    "C05": ["percolation", "get_node_irreducible_water_content", "get_irreducible_water_content"]
    + core("output Q$", "call percolation#"),
    "C06": ["refreezing"] + core("output (REFREEZE|intMB|LAYER_REFREEZE)$", "call refreezing#"),
    "C07": REMESH + core("call update_grid#", "call grid_check#"),
    "C08": ["remove_melt_weq"] + core("call remove_melt_weq#", "call percolation#0.argument", "output surfM$"),
    "C09": ["penetrating radiation"] + core("call penetrating_radiation#", "output (subM|intMB)$",
                                            "call surface_temperature#0.argument"),
    "C10": ["heat equation"] + core("call heat_equation#"),
    "C11": ["densification"] + core("call densification#"),
    "C12": ["albedo"] + CLOCK + core("call albedo#", "output ALBEDO$", "call penetrating_radiation#0.argument",
                                     "call surface_temperature#0.argument"),
    "C13": ["roughness", "add_fresh_snow", "remove_melt_weq"] + CLOCK
    + core("call roughness#", "output (Z0|new_snow_height|new_snow_timestamp|old_snow_timestamp)$", "call add_fresh_snow#",
           "call age_fresh_snow#"),
    "C14": ACCESS + SETTERS + HEIGHTS,
    "C15": ["init_snowpack", "create_grid_jitted"],
    "C16": [n for n in OBLIGATIONS if n.startswith("output selection")] + domain("^write RESULT", "^call .*from", ERR),
    "C17": ["load_snowpack", "create_grid_jitted", "restart record"]
    + core("write RESTART", "output RESTART$", "call grid_check#")
    + domain("^write RESTART", r"^call submit.*GRID_RESTART"),
    "C18": domain("^call (submit|collected)", ERR),
    "C19": [n for n in OBLIGATIONS if n.startswith(("settings ", "command line")) or n.endswith(" overrides")],
    "C20": ["result file", "restart file"] + domain("^write RES.*(attrs|encoding)"),
    "C21": [n for n in OBLIGATIONS if n.startswith("program")],
    "C22": ["forcing", "input ranges", "input range"],
    "C23": RADIATION,
    "C24": STATION + TOOLS + PLAIN["C24"],
    "C25": MODEL + TOOLS + PLAIN["C25"],
    "C26": [o.name for o in SHIPPED],
    "C27": SETUP,
    "C29": CONVERT,
    "C30": STATIC + TOOLS + PLAIN["C30"],
    "C28": ["stake comparison"] + core("^setitem", "output (stake_names|stat|df)$", ERR)
    + domain("to_csv", "makedirs", r"^call submit.*stake"),
}
