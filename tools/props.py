#!/usr/bin/env python3
"""Writes properties.jsonl and MANIFEST.json from one table (run after editing it)."""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
K, MOD = "cosipy/cpkernel/", "cosipy/modules/"
U = "cosipy/utilities/"
VF = ("value-flow equivalence: abstract interpretation of the current source into gated value-flow terms (symbolic layer "
      "arrays, loop summaries), normalised algebraically and compared with a reference definition; no execution, no solver")
RULE = ("syntax-tree queries and value-flow (provenance) analysis over the current source against declared tables")
XREF = ("cross reference of settings read, written and shipped: syntax-tree queries with constant propagation and "
        "value-flow terms of the settings tables; no execution")
NOTE = ("Static, over all inputs and configurations at the level of exact arithmetic. Constructs outside the analysed "
        "language make an obligation undecided (listed in the evidence), never an alarm.")


def prop(id, title, statement, over, text, why, files, mech, observe, technique=VF, note=NOTE, state=()):
    return dict(id=id, title=title, statement=statement, over=over, text=text, why=why, files=files, mech=mech,
                observe=observe, technique=technique, note=note, state=state)


CLAIMED = [
    prop("C01", "The surface energy balance closes and the excess energy melts",
         "At every time step the reported surface temperature is the root of the sum of absorbed shortwave, incoming and "
         "emitted longwave, sensible, latent, ground and rain heat flux, limited to the melting point; the reported flux "
         "components are the ones evaluated at that temperature. Melt energy is the positive part of that same sum with "
         "the shortwave reduced by what penetrates, and surface melt is this energy over one time step divided by the "
         "latent heat of melting.",
         ["inputs", "configurations"],
         "for every forcing value, layer profile, solver choice, parameterisation choice, time step length and run mode",
         "Tests call the solver with a handful of forcings and check ranges; a dropped or mis-signed term, a stale value "
         "or a branch only reached by one optimiser or run mode stays within those ranges.",
         [MOD + "surfaceTemperature.py", MOD + "secant.py", K + "cosipy_core.py"],
         [("update_surface_temperature", MOD + "surfaceTemperature.py"), ("eb_optim", MOD + "surfaceTemperature.py"),
          ("secant", MOD + "secant.py"), ("cosipy_core", K + "cosipy_core.py")],
         ["returned fluxes and surface temperature", "outputs TS, ME, LWin, LWout, H, LE, B, QRR, surfM"]),
    prop("C02", "Surface fluxes follow the documented bulk parameterisations",
         "Sensible and latent heat, their transfer coefficients with either stability correction, air and surface humidity, "
         "the phase dependent latent heat, longwave radiation (measured or from cloud cover), ground heat and rain heat "
         "are the documented functions of forcing, surface temperature, roughness and measurement height for every "
         "combination of parameterisation choices. The ground heat flux uses the temperatures interpolated at the two "
         "configured depths.",
         ["inputs", "configurations"],
         "for every forcing, surface temperature, layer profile, stability regime, cloud or longwave input and method choice",
         "Tests sample a few forcings and one or two method choices and mostly assert signs; stable, unstable and neutral "
         "regimes, the alternative longwave input and wrong constants or exponents are not separated.",
         [MOD + "surfaceTemperature.py"],
         [("eb_fluxes", MOD + "surfaceTemperature.py"), ("interp_subT", MOD + "surfaceTemperature.py"),
          ("phi_m / phi_tq", MOD + "surfaceTemperature.py")],
         ["values returned by the flux computation"]),
    prop("C03", "Mass balance terms add up and every output is the matching quantity",
         "For each time step the surface mass balance is snowfall minus melt plus the (signed) sublimation, deposition and "
         "evaporation, the internal balance is refreezing minus subsurface melt, and their sum is the reported mass "
         "balance. The latent heat flux is turned into exactly one regime of phase change depending on whether the surface "
         "is at the melting point, and every reported series holds the quantity of its name for its own time step.",
         ["inputs", "histories", "configurations"],
         "for every forcing series, every time step, standalone and coupled runs, with and without stake data",
         "No test runs the time loop at all, so neither the balance nor the assignment of quantities to outputs is sampled.",
         [K + "cosipy_core.py"],
         [("cosipy_core", K + "cosipy_core.py")],
         ["returned result series", "number and order of returned values"]),
    prop("C04", "Precipitation is split into snow and rain as configured",
         "Snow depth and rain of a time step follow from whichever of total precipitation and snowfall is given: given "
         "snowfall is taken and the remaining water is rain, otherwise the smooth temperature transition splits the total; "
         "the configured multiplier applies once and the option to force total precipitation is honoured. Amounts below "
         "the configured minimum count as none, fresh snow has the configured density and at most melting temperature, and "
         "when neither precipitation series is available an error is raised.",
         ["inputs", "configurations"],
         "for every combination of precipitation inputs, temperatures, wind speeds, thresholds and options",
         "No test exercises the precipitation handling; each input combination takes a different path.",
         [K + "cosipy_core.py", K + "grid.py"],
         [("cosipy_core forcing section", K + "cosipy_core.py"), ("add_fresh_snow", K + "grid.py")],
         ["outputs RAIN, SNOWFALL", "the layer added on snowfall", "errors raised"]),
    prop("C05", "Percolating water is retained, passed on or runs off, never lost",
         "Water entering the column (melt, condensation, rain and water of melted layers) is received by the uppermost "
         "layer; each layer above the lowest keeps at most its irreducible amount and hands the excess, converted by the "
         "layer thicknesses, to the next one. All water reaching the lowest layer leaves it as the runoff returned, so that "
         "water in the column plus runoff equals what was there plus what came in; nothing but water contents changes.",
         ["inputs", "histories"],
         "for every layer profile, amount of water and irreducible water formulation",
         "Tests use profiles of a few layers; thresholds between layers and the last layer are not separated.",
         [MOD + "percolation.py", K + "grid.py", K + "node.py", K + "cosipy_core.py"],
         [("percolation", MOD + "percolation.py"), ("get_layer_irreducible_water_content", K + "node.py")],
         ["layer liquid water after the step", "returned runoff", "output Q"]),
    prop("C06", "Refreezing exchanges water, ice and heat consistently",
         "In every layer below the melting point that holds water, the amount refrozen is limited by the water present, by "
         "the pore space and by the cold content available, the layer loses that water, gains the same mass as ice, and "
         "warms by the latent heat released, never above melting. The total returned and the per layer amounts recorded "
         "are those same quantities, and other layers stay as they were.",
         ["inputs", "histories"],
         "for every layer profile",
         "Tests use random small profiles and check signs or totals; limits meeting in one layer are not reached.",
         [MOD + "refreezing.py", K + "grid.py", K + "cosipy_core.py"],
         [("refreezing", MOD + "refreezing.py")],
         ["layer temperature, ice, water and refreeze after the step", "returned total", "output REFREEZE"]),
    prop("C07", "Remeshing keeps layer bookkeeping consistent",
         "Merging two layers adds their heights and forms ice, water and temperature so that mass and energy are carried "
         "over as documented; splitting, correcting a layer to a target height, the logarithmic and the adaptive remeshing "
         "follow their documented rules for every profile, keep all layer properties on the layer they belong to, and run "
         "the remeshing method that is configured.",
         ["inputs", "histories", "configurations"],
         "for every layer profile, layer index, target height and remeshing option",
         "Tests merge, split or correct a fixed small profile and mostly check counts; remeshing chains operations whose "
         "indices shift as layers appear and vanish.",
         [K + "grid.py", K + "node.py"],
         [("merge_nodes", K + "grid.py"), ("correct_layer", K + "grid.py"), ("split_node", K + "grid.py"),
          ("log_profile / adaptive_profile", K + "grid.py"), ("update_grid", K + "grid.py"),
          ("merge_snow_with_glacier", K + "grid.py")],
         ["layer profile after the operation"]),
    prop("C08", "Melt is removed from the top of the column layer by layer",
         "Removing a melt amount takes mass from the uppermost layers until the amount is used up: layers consumed "
         "completely disappear and their liquid water is handed on to percolation, the partly melted layer loses height "
         "only, and the rest of the column is unchanged. The fresh snow memory follows the removal, and the amount handed "
         "to this step is melt less the water lost by sublimation and deposition as documented.",
         ["inputs", "histories"],
         "for every layer profile and melt amount",
         "Tests remove one amount from a fixed profile; amounts spanning several layers, the boundary case and the handed "
         "on water are not sampled.",
         [K + "grid.py", K + "cosipy_core.py"],
         [("remove_melt_weq", K + "grid.py")],
         ["layer profile after removal", "returned water"]),
    prop("C09", "Penetrating shortwave radiation heats and melts below the surface",
         "The configured fraction of absorbed shortwave radiation decays exponentially with depth with the coefficient of "
         "the surface type and heats each layer with what it absorbs; layers that would exceed melting are set to melting "
         "and the surplus energy melts ice into water of that layer, thinning it, or removes it when it melts entirely. The "
         "subsurface melt returned is the sum over layers of the water produced, and the surface energy balance gets the "
         "shortwave radiation reduced by the penetrating part; without shortwave input nothing happens.",
         ["inputs", "configurations"],
         "for every layer profile, shortwave value and time step length",
         "Tests use a few profiles and check types and ranges.",
         [MOD + "penetratingRadiation.py", K + "cosipy_core.py"],
         [("method_Bintanja", MOD + "penetratingRadiation.py"), ("penetrating_radiation", MOD + "penetratingRadiation.py")],
         ["layer state after the step", "returned subsurface melt and penetrating energy", "output subM"]),
    prop("C10", "Heat conduction updates layer temperatures by the documented scheme",
         "Layer temperatures change over a time step by the explicit conduction scheme on the non-uniform layers with "
         "interface diffusivities and spacings, sub-stepped within the stability limit until exactly the full time step "
         "has elapsed. The surface and lowest temperatures are kept as boundary values and nothing but temperature changes.",
         ["inputs", "histories"],
         "for every layer profile and time step length",
         "Tests run one or two uniform profiles, where misplaced indices or spacings cancel.",
         [MOD + "heatEquation.py", K + "node.py", K + "cosipy_core.py"],
         [("solveHeatEquation", MOD + "heatEquation.py")],
         ["layer temperatures after the step"]),
    prop("C11", "Snow densifies by the selected method without changing mass otherwise",
         "The selected compaction method (or none for constant density) is applied to the snow layers with overburden, "
         "temperature, density and time step as documented: ice fraction and water content grow and the layer height "
         "shrinks by the documented amounts. Ice layers, layers below the minimum height and temperatures stay untouched, "
         "and an unknown method is rejected.",
         ["inputs", "configurations"],
         "for every layer profile, slope, time step length and method choice",
         "Tests use small fixed profiles per method and check that density grows.",
         [MOD + "densification.py", K + "grid.py", K + "cosipy_core.py"],
         [("densification", MOD + "densification.py"), ("method_Boone / method_Vionnet / method_empirical",
                                                        MOD + "densification.py")],
         ["layer state after the step", "errors raised"]),
    prop("C12", "Albedo follows snow age, depth and the selected scheme",
         "Albedo is the selected scheme's function of the age of the snow surface, snow depth, surface temperature and the "
         "previous snow albedo, with firn, ice and fresh snow limits as configured; snow that melted or sublimated away "
         "hands the age back to the older surface beneath. An unknown scheme is rejected, and the albedo reported and used "
         "for the absorbed shortwave radiation of a step is that value.",
         ["inputs", "histories", "configurations"],
         "for every layer profile, snow age history, surface temperature and scheme choice",
         "Tests check a few ages with one scheme, and never the chain through the time loop.",
         [MOD + "albedo.py", K + "grid.py", K + "cosipy_core.py"],
         [("updateAlbedo", MOD + "albedo.py"), ("fresh snow memory", K + "grid.py")],
         ["returned albedo", "fresh snow memory", "output ALBEDO"]),
    prop("C13", "Roughness length and the fresh snow memory track snowfall history",
         "The roughness length is that of ice without snow, otherwise grows with the age of the fresh snow up to the firn "
         "value; an unknown method is rejected. Snowfall starts a new fresh snow period or adds to the current one while the "
         "previous period is remembered, time without snowfall ages it by the step length, and each memory operation "
         "changes exactly its own quantities.",
         ["inputs", "histories", "configurations"],
         "for every sequence of snowfall, ageing and melt, every layer profile and method choice",
         "Tests set the memory once and read it back; histories of several snowfalls are not sampled.",
         [MOD + "roughness.py", K + "grid.py", K + "cosipy_core.py"],
         [("updateRoughness", MOD + "roughness.py"), ("add_fresh_snow and fresh snow setters", K + "grid.py")],
         ["returned roughness length", "fresh snow height and the two ages", "output Z0"]),
    prop("C14", "Layer properties derive from the stored state by fixed formulas",
         "Density, porosity, specific heat, irreducible water, cold content, thermal conductivity and diffusivity of a "
         "layer are the documented functions of its stored ice, water, temperature and height, for single layers and whole "
         "profiles alike; depths, snow and total heights and layer counts are the matching sums and counts. Setters change "
         "exactly the addressed property of the addressed layer, getters change nothing.",
         ["inputs", "configurations"],
         "for every layer profile, layer index and conductivity or irreducible water option",
         "Tests sample one profile and one option; agreement of single-layer and profile access over all layers and of the "
         "less used options is not reached.",
         [K + "node.py", K + "grid.py"],
         [("Node getters", K + "node.py"), ("Grid getters and setters", K + "grid.py")],
         ["values returned by layer and profile accessors", "layer state after setters"]),
    prop("C17", "The restart state written equals the state the run ended with",
         "A standalone run ends by writing, to the restart record of its grid point, the number of layers, height, density, "
         "temperature, water content and ice fraction of every layer in order, and the fresh snow memory, all as of the "
         "last time step; this record is stored at its cell of the state file. A run started from a stored state continues "
         "from a profile built from exactly these values instead of the initial profile.",
         ["inputs", "histories", "crash_points"],
         "for every run length and final layer profile",
         "No test writes or reads a restart state.",
         [K + "cosipy_core.py", K + "init.py", K + "io.py", "COSIPY.py"],
         [("restart section", K + "cosipy_core.py"), ("load_snowpack", K + "init.py"),
          ("IOClass.create_grid_restart", K + "io.py"), ("IOClass.write_restart_to_file", K + "io.py")],
         ["restart record returned", "variables of the state file", "state used when a stored state is given"]),
    prop("C15", "The initial layer profile follows the configured snow and ice column",
         "Without a stored state the column starts with at most five equal snow layers adding up to the initial snow depth "
         "(taken from the forcing where given and not missing, else from the configuration) above ice layers of the "
         "configured height down to the configured glacier height. Layer densities and temperatures are interpolated "
         "between the configured top and bottom values, all layers start dry, and a profile with missing temperatures is "
         "rejected.",
         ["inputs", "configurations"],
         "for every initial snow depth, glacier height, layer height, density and temperature setting",
         "Tests build columns from ready-made arrays; the initial profile itself is never compared with its specification.",
         [K + "init.py", K + "grid.py"],
         [("init_snowpack", K + "init.py"), ("create_grid_jitted", K + "init.py"), ("Grid.init_grid", K + "grid.py")],
         ["layers and fresh snow memory of the returned profile"]),
    prop("C16", "Every selected output variable is stored for its cell under its own name",
         "The result file holds exactly the selected variables that are not model input, each filled at every simulated "
         "grid cell with the series (or layer series) that the simulation of this cell computed for that variable and "
         "missing values everywhere else. Dimensions are time, northing and easting (and layer), whichever order the cells "
         "finish in; layer fields are only stored when they are switched on.",
         ["inputs", "schedules", "configurations"],
         "for every domain size, mask, selection of variables, completion order of the workers and kind of horizontal grid",
         "No test runs the driver or stores results; exchanged variables, transposed cells and order dependence stay unseen.",
         [K + "io.py", "COSIPY.py"],
         [("run_cosipy", "COSIPY.py"), ("IOClass.copy_local_to_global", K + "io.py"),
          ("IOClass.write_results_to_file", K + "io.py"), ("IOClass.__init__", K + "io.py")],
         ["variables of the result file"]),
    prop("C18", "Every glacier cell is simulated exactly once with its own data",
         "A run starts one simulation for each cell whose mask is one, with the forcing, cell index, stored previous state "
         "(when restarting) and stakes belonging to exactly this cell, and none for other cells; all of them are collected. "
         "A glacier cell with missing forcing values stops the run, and a stake belongs to the cell nearest to it on the "
         "ellipsoid.",
         ["inputs", "configurations"],
         "for every domain size, mask, restart and stake setting and kind of horizontal grid",
         "No test runs the driver.",
         ["COSIPY.py"],
         [("run_cosipy", "COSIPY.py"), ("transform_coordinates", "COSIPY.py"), ("check_for_nan", "COSIPY.py")],
         ["jobs handed to the workers", "results collected", "errors"]),
    prop("C19", "Settings are exactly those of the given files with documented overrides",
         "Every key of every table of the configuration, constants and cluster file named on the command line (or found in "
         "the default folder) becomes the setting of that name, replacing any earlier value. Only these are adjusted: "
         "dimension names for WRF input, layer fields, albedo and stability method for coupled runs, zero workers meaning "
         "all, and the memory of a cluster job being memory per process times cores where given.",
         ["inputs", "configurations", "histories"],
         "for every content of the three files, command line and sequence of loads",
         "Tests load the shipped files and one or two overrides.",
         ["cosipy/config.py", "cosipy/constants.py"],
         [("TomlLoader.set_config_values", "cosipy/config.py"), ("Config.set_correct_config", "cosipy/config.py"),
          ("SlurmConfig.set_correct_config", "cosipy/config.py"), ("get_user_arguments", "cosipy/config.py"),
          ("Constants.set_correct_config", "cosipy/constants.py")],
         ["settings after loading", "command line options"]),
    prop("C20", "The result file describes itself: coordinates, settings, forcing and units",
         "The result file carries the coordinates of the forcing, the value of every setting recorded under its name, the "
         "forcing variables that were given (with missing values in place of absent precipitation and cloud cover), and for "
         "every variable its own unit, description and fill value. The state file carries the last time of the forcing, the "
         "horizontal coordinates and one layer index per possible layer.",
         ["inputs", "configurations"],
         "for every forcing data set and configuration",
         "No test creates a result file; swapped units or attributes go unnoticed.",
         [K + "io.py"],
         [("IOClass.init_result_dataset", K + "io.py"), ("IOClass.get_result_metadata", K + "io.py"),
          ("IOClass.set_variable_metadata", K + "io.py"), ("IOClass.create_empty_restart", K + "io.py")],
         ["coordinates, attributes and metadata of result and state file"]),
    prop("C21", "A run leaves its results and its final state under the expected file names",
         "A run reads the forcing, simulates the domain and then stores the complete result file, compressed as configured, "
         "in the output folder under the configured prefix and the configured period, and the state file in the restart "
         "folder under the time of the last simulated step, which is the name a continuing run looks for. Missing folders "
         "are created; with or without a cluster the same is done.",
         ["configurations", "histories"],
         "for every configured period, prefix, folder and kind of cluster",
         "No test runs the program.",
         ["COSIPY.py"],
         [("main", "COSIPY.py"), ("set_output_netcdf_path", "COSIPY.py"), ("create_data_directory", "COSIPY.py")],
         ["files written, their names and contents"]),
    prop("C22", "The forcing is the chronological part of the input for the simulated period",
         "The forcing is the input file sorted by time and restricted to the configured period (when restarting, from one "
         "time step after the stored state up to the configured end) and to the configured part of the domain. A missing "
         "input or state file, a period outside the data and an empty restart period stop the run, and each forcing "
         "variable that is present is compared with its documented range.",
         ["inputs", "configurations", "histories"],
         "for every input file, configured period, sub-domain and restart setting",
         "No test reads forcing.",
         [K + "io.py"],
         [("IOClass.create_data_file", K + "io.py"), ("IOClass.init_data_dataset", K + "io.py"),
          ("IOClass.check_input_data", K + "io.py")],
         ["forcing data set returned", "domain size", "errors", "range checks"]),
    prop("C23", "Sunshine on slopes follows the documented solar geometry and terrain shading",
         "Elevation, zenith and azimuth of the sun, the diffuse fraction of measured radiation and the correction of its "
         "direct part for slope and aspect follow the documented formulas, with all radiation diffuse above the zenith "
         "threshold. In the clear-sky scheme the solar parameters of each day, the transmissivities, the cloud and sky-view "
         "correction, the self-shading and the hourly look-up table of terrain shading (horizon angle along the path to the "
         "sun against solar elevation) do, with zero at night.",
         ["inputs", "configurations"],
         "for every position, time, terrain model, glacier mask and meteorological field",
         "No test calls the radiation routines; wrong angles still give plausible radiation.",
         [MOD + "radCor.py"],
         [("solarFParallel", MOD + "radCor.py"), ("radCor2D", MOD + "radCor.py"), ("relshad", MOD + "radCor.py"),
          ("LUTshad", MOD + "radCor.py"), ("LUTsvf", MOD + "radCor.py"), ("calcRad", MOD + "radCor.py")],
         ["angles, fractions, corrected radiation, look-up tables"]),
    prop("C24", "Station records become forcing at every cell by the documented lapse rates",
         "From a station record, temperature, humidity, precipitation and snowfall reach the cell or grid with the configured "
         "gradients in the height difference (humidity within 0 to 100 %, precipitation and snowfall not negative), pressure by "
         "the barometric equation, and wind, cloud cover and measured longwave radiation unchanged; radiation is the measured "
         "one or that of the selected radiation scheme, on glacier cells. Aggregation to the configured interval means states "
         "and sums precipitation and snowfall, only the requested period is used, all variables carry name, unit and "
         "coordinates, incomplete records are refused, and values outside plausible ranges are reported.",
         ["inputs", "configurations"],
         "for every station record, static file, option and setting of the forcing program",
         "No test runs the station program; a gradient on the wrong variable, a swapped height or sum for mean gives "
         "plausible files.",
         [U + "aws2cosipy/aws2cosipy.py", U + "config_utils.py"],
         [("create_1D_input", U + "aws2cosipy/aws2cosipy.py"), ("create_2D_input", U + "aws2cosipy/aws2cosipy.py"),
          ("get_pressure_bias", U + "aws2cosipy/aws2cosipy.py"), ("get_time_slice", U + "aws2cosipy/aws2cosipy.py")],
         ["forcing file written", "warnings and refusals"]),
    prop("C25", "Atmospheric model output becomes forcing in the units the glacier model reads",
         "From an atmospheric model file, accumulated precipitation and snowfall become amounts per output step (zero for the "
         "first), snowfall a depth by the fresh-snow density, mixing ratio a relative humidity within 0 to 100 %, pressure is "
         "in hPa, wind is the speed brought from the configured height to 2 m by the logarithmic profile, and the glacier mask "
         "is the configured land-use class. Radiation, temperature and the initial snow fields are taken over, slope and "
         "aspect derive from the model's elevations and grid spacing, only the requested period is written.",
         ["inputs", "configurations"],
         "for every model file, period and setting of the conversion program",
         "No test runs the conversion; a unit or accumulation error gives a readable file and a wrong glacier.",
         [U + "wrf2cosipy/wrf2cosipy.py", U + "config_utils.py"],
         [("create_input", U + "wrf2cosipy/wrf2cosipy.py"), ("check", U + "wrf2cosipy/wrf2cosipy.py")],
         ["forcing file written", "warnings"]),
    prop("C26", "Shipped settings files name exactly what the programs read",
         "Every setting the programs read is present in the settings files they ship, in the section it is read from, or is "
         "read with a fallback; every shipped setting is read, and no two sections of a file share a name. The sample files "
         "and cluster examples have the layout of the top-level files, and the shipped choices are among those the code "
         "distinguishes.",
         ["configurations", "programs"],
         "for every setting of every shipped file and every read of a setting in every program",
         "Tests load the model settings only; a setting renamed on one side stops a program late or is silently without effect.",
         ["cosipy/config.py", "cosipy/constants.py", U + "config_utils.py", "config.toml", "constants.toml",
          "slurm_config.toml", "utilities_config.toml"],
         [("Config, SlurmConfig", "cosipy/config.py"), ("Constants", "cosipy/constants.py"),
          ("UtilitiesConfig", U + "config_utils.py")],
         ["settings the programs start with"], technique=XREF),
    prop("C27", "Sample settings are installed where asked and never replaced unasked",
         "The set-up program copies all four sample settings files to the given directory, creating it if needed, or to the "
         "current one. A file that exists there is replaced only after the user agrees or asked for it on the command line; an "
         "empty answer means no. Identical source and target, or a missing sample, is an error.",
         ["inputs", "configurations", "histories"],
         "for every command line, directory content and sequence of answers",
         "Tests cover single helpers with mocked answers, not which files are written when.",
         [U + "setup_cosipy/setup_cosipy.py"],
         [("main", U + "setup_cosipy/setup_cosipy.py"), ("get_user_confirmation", U + "setup_cosipy/setup_cosipy.py")],
         ["files written", "errors"]),
    prop("C28", "Stake comparison tabulates the modelled balance at observation times",
         "With stake evaluation on, the cumulative mass balance since the start of the run and the snow height are recorded "
         "exactly at the time steps that occur among the observation times, and the statistic returned is the root mean square "
         "difference from the observations of the cell's stakes; without it neither table nor statistic is produced. After "
         "the run the statistics and the modelled values of all stakes are stored in two tables.",
         ["inputs", "histories", "configurations"],
         "for every forcing series and set of observation times",
         "No test runs stake evaluation.",
         [K + "cosipy_core.py", MOD + "evaluation.py", "COSIPY.py"],
         [("stake section", K + "cosipy_core.py"), ("evaluate", MOD + "evaluation.py")],
         ["table and statistic returned", "tables stored"]),
    prop("C29", "Converted settings keep every value of the old settings",
         "Converting settings of an older version gives settings files with the layout of the current ones, in which every "
         "value that existed under the old name or, where it was renamed, under the documented new name is the old one, and "
         "values without a predecessor are the current defaults.",
         ["inputs", "configurations"],
         "for every settings module of the older version and every setting of the current files",
         "Tests cannot cover each of the settings; a value read from the wrong old name is plausible.",
         ["convert_config.py"],
         [("get_config_params", "convert_config.py"),
          ("get_constants_params", "convert_config.py")],
         ["settings files written"], technique=XREF),
    prop("C30", "Static files describe the terrain on the model grid",
         "The elevation model is cut to the requested area and then averaged to the requested grid size, each step only if "
         "asked for. From that terrain slope, aspect and glacier mask (outline cells 1, others marked missing) are derived and "
         "stored with the elevations on one grid under their names, units and coordinates; the file is written only if no "
         "glacier cell lacks a value, and only intermediate files are removed.",
         ["inputs", "configurations", "histories"],
         "for every elevation model, outline, area and setting of the program",
         "No test runs it (it needs external programs).",
         [U + "createStatic/create_static_file.py", U + "config_utils.py"],
         [("main", U + "createStatic/create_static_file.py")],
         ["commands issued", "files removed", "static file written"]),
]

NOT_APPLICABLE = []


def write():
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in CLAIMED + NOT_APPLICABLE:
            f.write(json.dumps({
                "id": p["id"], "title": p["title"], "statement": p["statement"],
                "quantifier": {"over": p["over"], "text": p["text"]}, "why_tests_cant": p["why"],
                "anchors": {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]],
                            "observe_at": p["observe"], "hook_needed": None}}) + "\n")
    m = {"version": 1, "setup_cmd": "python3 -m compileall -q sa spec check.py registry.py",
         "checks": [{"property": p["id"], "quick_cmd": f"python3 check.py {p['id']} --tier quick",
                     "thorough_cmd": f"python3 check.py {p['id']} --tier thorough", "technique": p["technique"],
                     "level": "other", "level_note": p["note"]} for p in CLAIMED],
         "not_applicable": [{"property": p["id"], "reason": p["note"]} for p in NOT_APPLICABLE]}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(m, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    write()
