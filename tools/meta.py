"""Writes properties.jsonl and MANIFEST.json (the single source of both).

usage: python tools/meta.py        (run from /verif)
"""
import json
import os

HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
TECH = "deterministic simulation with fault injection: "

# id, title, statement, over, quantifier text, why tests cannot, files, mechanisms[(name, where)], observe_at,
# technique suffix, level, level note
P = []


def prop(id, title, statement, over, qtext, why, mech, observe, technique, note, level="exploration", state=()):
    files = []
    for _, w in mech:
        f = w.split(":")[0].split(" ")[0]
        if f not in files:
            files.append(f)
    P.append({"id": id, "title": title, "statement": statement, "over": over, "qtext": qtext, "why": why, "mech": mech,
              "observe": observe, "technique": technique, "note": note, "level": level, "state": state, "files": files})


SUB = "emc2/simulator/subcolumn.py"
RAD = "emc2/simulator/radar_moments.py"
LID = "emc2/simulator/lidar_moments.py"
MAIN = "emc2/simulator/main.py"
MOD = "emc2/core/model.py"
CLS = "emc2/simulator/classification.py"
ATT = "emc2/simulator/attenuation.py"
INS = "emc2/core/instrument.py"
PSD = "emc2/simulator/psd.py"

GEN_TRUST = ("Seeded search, not proof: assurance is over the explored runs. Trusts numpy/xarray, the synthetic models' fidelity to the "
             "documented model attributes, and the simulated scheduler as a superset of dask's legal behaviours.")

prop("P01", "Scheduling never changes the answer",
     "For one model, one instrument, one set of options and the same random draws, every output field of a simulation is the same whether the "
     "columns are processed serially, in parallel, or in parallel in chunks of any size (smaller than, not dividing, or larger than the number "
     "of columns). It does not depend on the order in which parallel tasks finish, on tasks running in separate worker processes that share no "
     "memory, or on tasks that are executed twice or lose their worker part-way and are re-executed. This holds for radars and lidars, for the "
     "radiation, microphysics and empirical approaches, and for every supported microphysics scheme.",
     ["schedules", "inputs", "configurations", "fault_sequences"],
     "all completion orders, chunk sizes, worker placements, task re-executions; all models, instruments and options",
     "The tests run one serial or default-scheduled pass over one file each and never compare two schedules; chunked runs, multi-process "
     "isolation and task re-execution are never exercised.",
     [("chunked dispatch of the three generator stages", SUB + ":set_stratiform_sub_col_frac, set_precip_sub_col_frac, set_q_n"),
      ("chunked dispatch of per-column moments", RAD + ":calc_radar_micro"), ("chunked dispatch of per-column moments", LID + ":calc_lidar_micro")],
     ["fields of the returned model's dataset"],
     "seeded task scheduler behind dask's scheduler seam (order, chunking, process isolation, duplicate and crashed tasks), differential "
     "against the serial run", GEN_TRUST + " Draws are a fixed function of their arguments in these runs so that who draws first cannot matter.")

prop("P02", "Cloud occupies exactly its share of subcolumns",
     "In every cell below the topmost level, stratiform liquid cloud and stratiform cloud ice each occupy exactly their cloud fraction times the "
     "number of subcolumns, rounded, capped by the subcolumns that convection leaves free (both fill the row when both fractions round to one), "
     "and never sit in a convective subcolumn otherwise. Convective liquid and ice occupy exactly their own rounded share. Where the radiation "
     "logic is used, cells without condensate above the truncation threshold count as fraction zero.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all fraction fields, subcolumn counts, logics, random draws and task schedules",
     "The tests check a handful of cells of one constructed cloud; the allocation branches on how four counts compare with each other and with "
     "what lies above, and most of those branches are never reached.",
     [("stratiform allocation", SUB + ":_allocate_strat_sub_col"), ("convective allocation", SUB + ":set_convective_sub_col_frac")],
     ["strat_frac_subcolumns_*, conv_frac_subcolumns_* fields"],
     "seeded schedules and (adversarial) draws over generated cloud fields, occupancy counted against the requested fractions", GEN_TRUST)

prop("P03", "Liquid and ice overlap maximally and clouds extend vertically",
     "In every cell below the topmost level the subcolumns of the stratiform phase with the smaller count are a subset of those of the other phase "
     "(maximum overlap). Below a cloudy cell, cloud is placed first in the subcolumns already cloudy at the level above (outside convection): as "
     "many of them as the cell's cloud can fill are filled, and where both phases are present above, the subcolumns holding both are filled "
     "before those holding one. The same vertical rule holds for the part of the cell that holds both phases.",
     ["inputs", "schedules", "configurations"],
     "all pairs of adjacent levels' counts, convective counts, random draws and task schedules",
     "The overlap rule is a statement about every pair of adjacent cells for every combination of counts; the tests look at total cloud fraction "
     "profiles of one model file.",
     [("vertical overlap branches", SUB + ":_allocate_strat_sub_col")],
     ["strat_frac_subcolumns_cl, strat_frac_subcolumns_ci"],
     "seeded schedules and draws over generated cloud fields, overlap relations checked cell by cell", GEN_TRUST)

prop("P04", "Precipitation occupies exactly its share, classes maximally overlapped",
     "In every cell below the topmost level each precipitation class, stratiform and convective, occupies exactly its precipitation fraction "
     "times the number of subcolumns, rounded (zero under the radiation logic where there is no condensate above the truncation threshold). "
     "Within a cell the classes are maximally overlapped: the subcolumns of a class with a smaller count are a subset of those of a class with a "
     "larger count. This holds for any number of precipitation classes, including rain, ice, snow and graupel together.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all precipitation fraction fields and class sets, subcolumn counts, logics, random draws and task schedules",
     "The tests use two precipitation classes and one or two cells; nothing re-executes or reorders the tasks that share the counters.",
     [("precipitation allocation", SUB + ":_allocate_precip_sub_col"), ("class handling", SUB + ":set_precip_sub_col_frac"),
      ("class list per model", MAIN + ":make_simulated_data")],
     ["strat_frac_subcolumns_*, conv_frac_subcolumns_* of precipitation classes"],
     "seeded schedules with duplicated and crashed tasks over generated precipitation fields, occupancy counted", GEN_TRUST)

prop("P05", "Precipitation falls below precipitation first, then cloud, then clear",
     "In every cell below the topmost level, precipitation (and each of its classes) is placed first in subcolumns that have precipitation at the "
     "level above, then in the remaining subcolumns that are cloudy in that cell, and only then elsewhere: each group is filled as far as the "
     "cell's precipitation allows before the next is used. This holds for stratiform precipitation against stratiform cloud and for convective "
     "precipitation against convective cloud.",
     ["inputs", "schedules", "configurations"],
     "all fields, class sets, subcolumn counts, logics, random draws and task schedules",
     "A priority order can only be seen where a cell leaves a choice; the tests hold no such cell and check no placement relation.",
     [("priority stages", SUB + ":_allocate_precip_sub_col")],
     ["strat_frac_subcolumns_*, conv_frac_subcolumns_*"],
     "seeded schedules and draws over generated fields, placement relations checked cell by cell", GEN_TRUST)

prop("P06", "Condensate and number are conserved when handed to subcolumns",
     "For every class and cell, mixing ratio is non-zero only in the subcolumns the class occupies; for all classes except microphysics-logic "
     "stratiform cloud liquid each occupied subcolumn holds the in-cloud mean (grid mean over fraction), and for that one the occupied "
     "subcolumns hold non-negative values that sum to the in-cloud mean times their number, whatever values the random distribution returns. "
     "Stratiform number concentration likewise equals its in-cloud mean in occupied subcolumns and zero elsewhere. With a single subcolumn, it "
     "holds the in-cloud means.",
     ["inputs", "schedules", "configurations"],
     "all fields, relative variances, subcolumn counts, random draws (including extreme ones) and task schedules",
     "The tests check one class in one synthetic column with ordinary draws; conservation must survive every draw, including those that overshoot "
     "the cell total.",
     [("drawn distribution of cloud water", SUB + ":_distribute_cl_q_n"), ("uniform distribution", SUB + ":set_q_n")],
     ["*_q_subcolumns_*, *_n_subcolumns_* fields"],
     "seeded schedules and adversarial gamma/permutation draws, conservation recomputed per cell", GEN_TRUST)

prop("P07", "Every run finishes, whatever the inputs and draws",
     "Subcolumn generation and a whole simulation finish without an error, within a number of executed steps proportional to the number of cells, "
     "subcolumns and classes. This includes degenerate inputs: fractions without condensate, condensate without a fraction, class fractions "
     "asking for more than the cell, cloud-free models, a single level, column or subcolumn, extreme relative variances; and it includes every "
     "value the random draws can return.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all inputs with fractions in [0, 1] and non-negative contents, all draws in the distributions' support, all schedules",
     "Termination of the redraw loop and of degenerate cells is a statement about all inputs and all draws; the tests only ever run ordinary ones.",
     [("rejection of overshooting draws", SUB + ":_distribute_cl_q_n"), ("cell loops", SUB + ":_allocate_strat_sub_col, _allocate_precip_sub_col"),
      ("pipeline", MAIN + ":make_simulated_data")],
     ["the call returns; executed steps of the package"],
     "step-counted runs with adversarial draws and degenerate inputs; liveness as a step bound", GEN_TRUST)

prop("P08", "A result does not depend on what was simulated before",
     "Simulating an observation with given subcolumns and options yields the same output fields whatever was done before on the same model and "
     "instrument objects: other instruments, other approaches or options, the same observation again, an earlier run that was interrupted "
     "part-way, or output fields converted for display (zeros to missing values). Observing never changes the subcolumns, and regenerating "
     "subcolumns and observing gives the same as on a fresh model.",
     ["histories", "inputs", "configurations", "crash_points"],
     "all sequences of earlier operations on the same objects, including interrupted ones",
     "Every test builds a new model and calls one function once; no test performs two simulations on one model.",
     [("accumulating totals", RAD + ":calc_radar_micro, calc_radar_bulk, calc_radar_empirical"),
      ("accumulating totals", LID + ":calc_lidar_micro, calc_lidar_bulk, calc_lidar_empirical"), ("pipeline", MAIN + ":make_simulated_data"),
      ("display conversion", MOD + ":Model.finalize_subcol_fields")],
     ["fields of the returned model's dataset"],
     "random operation histories with interruptions on one model, differential against a fresh model", GEN_TRUST)

prop("P09", "Totals are exactly the combination of their classes",
     "Total reflectivity, backscatter, extinction and optical depth are the (linear) sums over the hydrometeor classes observed, total Doppler "
     "velocity and spectral width are the reflectivity-weighted mean and the combined spread of the classes, depolarisation is "
     "backscatter-weighted, hydrometeor attenuation is the product of the classes', and attenuated totals are the totals times the gaseous and "
     "hydrometeor attenuation; grand totals combine stratiform and convective parts the same way. A class contributes the same whether it is "
     "observed alone or together with others, and the order in which classes are listed does not matter. This holds for any subset of classes and "
     "every approach and scheme.",
     ["inputs", "configurations", "histories"],
     "all models, class subsets and orders, instruments, approaches and options",
     "The tests compare totals of one file with stored constants; they never observe a subset, another order, or a class alone.",
     [("radar totals", RAD + ":calc_radar_micro, calc_radar_bulk, calc_radar_empirical, accumulate_attenuation, calc_total_reflectivity"),
      ("lidar totals", LID + ":calc_lidar_micro, calc_lidar_bulk, calc_lidar_empirical, calc_total_alpha_beta, calc_LDR_and_ext")],
     ["sub_col_*_tot*, hyd_ext_*, sub_col_LDR_* fields"],
     "scheduled runs over class subsets and orders, totals recomputed from single-class runs", GEN_TRUST)

prop("P10", "A failure surfaces, and running again gives the undisturbed result",
     "If a parallel task raises, the process is interrupted, or an allocation fails anywhere during a simulation, the call raises that failure "
     "instead of returning as if complete, and the model's input fields are unchanged. Calling again with the same arguments on the same model "
     "and instrument then yields exactly what an undisturbed run yields.",
     ["crash_points", "fault_sequences", "schedules", "inputs"],
     "all points at which a task, an interruption or an allocation failure can strike, all schedules",
     "No test injects a failure; the property is about every line at which a run can be cut short.",
     [("task dispatch", SUB + ":set_stratiform_sub_col_frac, set_precip_sub_col_frac, set_q_n"), ("task dispatch", RAD + ":calc_radar_micro"),
      ("task dispatch", LID + ":calc_lidar_micro"), ("pipeline", MAIN + ":make_simulated_data")],
     ["the call's outcome; fields of the model's dataset"],
     "one injected task failure, KeyboardInterrupt or MemoryError at a seeded point, then a retry compared with the undisturbed run", GEN_TRUST,
     )

prop("P11", "Saving subcolumns is all or nothing and reads back exactly",
     "If saving a model's subcolumns returns, the file under the requested name holds every subcolumn field with exactly the model's values; "
     "loading it into a fresh model of the same input yields exactly those fields, changes none of the model's own fields, and keeps working "
     "after the file is removed; a load that fails, because the disk does or because the model already holds other subcolumns, leaves the model as it "
     "was, and one that is accepted leaves the saved values in place. If saving raises or the process dies at any point of it, the file under the requested name is either what was "
     "there before, byte for byte, or a complete save - never a partial one; a failed save leaves no stray files, and saving again succeeds. "
     "This includes saving over the very file the subcolumns were loaded from.",
     ["crash_points", "fault_sequences", "inputs", "histories"],
     "all file operations of a save at which an error, short transfer or process death can strike; all models, with or without moments",
     "The tests never save; no test can place an error or a crash at each of the hundreds of file operations of one save.",
     [("save", MOD + ":Model.subcolumns_to_netcdf"), ("load", MOD + ":Model.load_subcolumns_from_netcdf")],
     ["the file under the requested name, the directory, the call's outcome, fields after loading"],
     "file-operation faults (EIO, ENOSPC, EACCES, EMFILE, EINTR, short and torn writes) and process death at a drawn operation of the save, then "
     "restart, compared with the saved model", GEN_TRUST + " Process death, not power loss: data handed to the kernel survives.",
     )

prop("P12", "Reading files under disk faults is exact or an error, and a retry is exact",
     "Reading scattering tables, constructing a built-in instrument, opening a model output file (a single place or a region), reading an "
     "instrument observation file, and simulating a lazily opened model file either yield exactly what an undisturbed read yields or raise, "
     "whatever read or open operations fail or come up short. Once the faults stop, reading again in the same process yields exactly the "
     "undisturbed result. The files that are read are never changed and text tables are not left open.",
     ["fault_sequences", "inputs", "histories"],
     "all file operations of a read at which an error or short transfer can strike",
     "No test makes a read fail; the property is about each of the operations of each kind of file.",
     [("table readers", "emc2/io/load_scat_file.py:load_scat_file (and load_mie_file, load_bulk_scat_file beside it)"),
      ("instruments", "emc2/core/instruments.py:KAZR, HSRL, CEIL and others"), ("observation files", INS + ":Instrument.read_arm_netcdf_file"),
      ("model files", MOD + ":ModelE, E3SMv1, DHARMA")],
     ["tables, instrument and model attributes, dataset fields, the call's outcome"],
     "read and open faults at drawn operations, differential against the undisturbed read, retry in the same process",
     GEN_TRUST + " A fault is one the operation reports; silent corruption of bytes is out of scope.")

prop("P13", "Every place of a regional file gets its own answer, at its own place",
     "Opening a regional model output file, optionally cropping it in time or by a bounding box, simulating it and unstacking it yields the "
     "region's own coordinates (of the cropped part) and, at each place, exactly the fields that a simulation of a file holding only that place "
     "yields. This holds for any region shape and for sub-domains given by name suffixes, with the work serial or scheduled in parallel. "
     "Unstacking twice is refused.",
     ["inputs", "schedules", "configurations"],
     "all region shapes, crops, formats, options and task schedules",
     "The tests open single-column files; a mix-up of places only shows where there are several places with different content.",
     [("stacking and unstacking", MOD + ":Model.check_and_stack_time_lat_lon, unstack_time_lat_lon"),
      ("cropping", MOD + ":Model._crop_time_range, _crop_bounding_box"), ("sub-domains", MOD + ":Model.remove_appended_str, E3SMv1")],
     ["fields and coordinates of the unstacked dataset"],
     "seeded schedules over generated regional files, differential against single-place files", GEN_TRUST)

prop("P14", "Simulations running at the same time do not disturb each other",
     "When several threads each simulate a model of their own, sharing one instrument object, every one obtains exactly the output fields it "
     "would have obtained running alone, however the threads interleave.",
     ["schedules", "inputs", "configurations"],
     "all interleavings of two or three callers at the granularity of lines of the package; all options of each",
     "The tests are single-threaded.",
     [("pipeline", MAIN + ":make_simulated_data"), ("shared instrument tables", RAD + ":calc_radar_micro, calc_radar_bulk"),
      ("shared instrument tables", LID + ":calc_lidar_micro, calc_lidar_bulk"), ("size distributions", PSD + ":calc_mu_lambda")],
     ["fields of each caller's dataset"],
     "seeded thread scheduler switching at lines of the package, differential against the same call made alone",
     GEN_TRUST + " Threads switch between lines of the package; library calls are atomic.")

prop("P15", "The seed of numpy's generator is all the randomness there is",
     "With numpy's global generator in the same state, the same model, instrument, options and schedule give bit-for-bit the same output, "
     "whatever the clock does, whatever was simulated before in the process, whatever the state of Python's own generator, the working "
     "directory, the environment and the string hash seed.",
     ["histories", "inputs", "configurations"],
     "all clock behaviours, process histories and environments; all models and options",
     "The tests never compare two runs.",
     [("draws", SUB + ":_allocate_strat_sub_col, _allocate_precip_sub_col, _distribute_cl_q_n"), ("pipeline", MAIN + ":make_simulated_data")],
     ["fields of the returned model's dataset"],
     "runs repeated under a jumping simulated clock, other histories, environments and hash seeds, compared bit for bit", GEN_TRUST)

prop("P16", "A simulation only adds results",
     "A simulation leaves every input field (values, type, dimensions, attributes), the model's configuration, the instrument and its tables, "
     "the arguments passed, and process-wide settings (working directory, environment, dask settings, Python's generator) as they were - also "
     "when it is interrupted, runs out of memory or fails at any point, and also over several simulations in a row. Asked to blank out zeros, it blanks "
     "out exactly the zeros of its own sub_col fields.",
     ["crash_points", "histories", "schedules", "inputs", "configurations"],
     "all points at which a run can be cut short, all sequences of simulations, all models and options",
     "The tests never look at what a call should not have changed, nor cut a call short.",
     [("pipeline", MAIN + ":make_simulated_data"), ("bulk tables", RAD + ":calc_radar_bulk"), ("size distributions", PSD + ":calc_mu_lambda"),
      ("configuration", MOD + ":Model.set_hyd_types, check_and_stack_time_lat_lon")],
     ["the model's fields and attributes, the instrument, arguments, process state"],
     "an injected interruption, failed allocation or error at a drawn line of one of several simulations, then a full comparison of inputs",
     GEN_TRUST)

prop("P17", "A simulation resumed from a save equals the uninterrupted one",
     "A process that generates subcolumns (or also observes with one instrument), saves them and dies at any later point can be continued by a new "
     "process that opens the same input, loads the save and observes: it obtains exactly the fields of one uninterrupted run. This holds "
     "over several save-and-restart rounds, under any schedule, for model files as for in-memory models, and for a save opened as a processed "
     "dataset.",
     ["crash_points", "histories", "schedules", "inputs"],
     "all points of death after the save, all rounds, schedules, models, instruments and options",
     "The tests never save or load.",
     [("save and load", MOD + ":Model.subcolumns_to_netcdf, load_subcolumns_from_netcdf"), ("resumed observation", MAIN + ":make_simulated_data"),
      ("processed dataset", MOD + ":ModelE, E3SMv1, DHARMA")],
     ["fields of the resumed model's dataset"],
     "process death at a drawn line after the save, restart in a new process state, differential against the uninterrupted run",
     GEN_TRUST + " Process death, not power loss.")

prop("P18", "A column's result depends on that column alone",
     "With the same random draws, the output of a column is the same whichever other columns are simulated with it, in whatever order and however "
     "often they are repeated, and whatever unusable values (missing, infinite, negative, huge) other columns hold; such values in one column "
     "do not stop the simulation of the others.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all selections and orders of columns, all corruptions of other columns, all models, options and schedules",
     "The tests simulate one set of columns of one file.",
     [("per-column tasks", RAD + ":calc_radar_micro"), ("per-column tasks", LID + ":calc_lidar_micro"),
      ("vectorised paths", RAD + ":calc_radar_bulk, calc_radar_empirical"), ("cell loops", SUB + ":set_q_n")],
     ["fields of the returned model's dataset"],
     "seeded schedules over drawn column selections and corrupted columns, differential per column",
     GEN_TRUST + " Draws are a fixed function of their arguments in these runs.")

prop("P19", "Subcolumn placement and sub-grid water are fair draws",
     "Which subcolumns hold a class is an unbiased draw: among the subcolumns free of convection every one is equally often occupied, every pair "
     "equally often together, and columns are drawn independently of each other; sub-grid cloud liquid under the microphysics logic follows the "
     "gamma distribution of the model's relative variance, whatever the scheduling, batch size, duplicated or re-run tasks.",
     ["schedules", "fault_sequences", "inputs", "configurations"],
     "all seeds, schedules, class fractions, subcolumn counts, both cloud logics",
     "A biased or correlated draw gives plausible results in any single run; the tests make a handful of runs of one column set.",
     [("stratiform placement", SUB + ":set_stratiform_sub_col_frac, _allocate_strat_sub_col"), ("precipitation placement", SUB + ":set_precip_sub_col_frac, _allocate_precip_sub_col"),
      ("sub-grid water", SUB + ":set_q_n, _distribute_cl_q_n")],
     ["*_frac_subcolumns_*", "strat_q_subcolumns_cl"],
     "seeded schedules and draws over hundreds of identical columns, exact binomial/hypergeometric tests and an independent reference sampler, alarm only below p = 1e-11",
     GEN_TRUST + " Statistical: a small bias can stay below the alarm level of one run.")

prop("P20", "Attenuation accumulates along the beam, and nothing reaches back against it",
     "What is seen at a level depends only on that level and those the beam crossed before it: replacing or corrupting a level's contents (its "
     "cloud and precipitation, or the air, particle sizes and densities given for it) leaves every "
     "output nearer to the instrument unchanged. The two-way attenuation of each level, taken alone, starts behind that level, stays constant along "
     "the rest of the beam, and the levels' attenuations together make up the whole; gaseous and molecular attenuation likewise. Looking up and "
     "looking down, for radar and lidar, for all approaches.",
     ["inputs", "configurations", "schedules", "fault_sequences"],
     "all profiles, replacements and corruptions of a level, directions, instruments, approaches, schedules",
     "The tests compare a few integrated numbers for one direction.",
     [("radar attenuation", RAD + ":accumulate_attenuation"), ("lidar optical depth", LID + ":accumulate_OD, calc_total_alpha_beta"),
      ("gases", ATT + ":calc_radar_atm_attenuation"), ("molecular", ATT + ":calc_theory_beta_m")],
     ["hyd_ext_*, atm_ext, sub_col_Ze_att_*, sub_col_OD_*, sub_col_beta_att_*, tau, masks"],
     "level replacement and corruption under seeded schedules, decomposition of the accumulated attenuation into single-level runs",
     GEN_TRUST + " Draws are a fixed function of their arguments in these runs.")

prop("P21", "Detectability, extinction and phase masks say what the signal says",
     "The minimum detectable reflectivity follows range and reference range; the detectability mask, the lidar extinction mask (and its single "
     "layer before extinction), the radar sounding classification within the requested heights, the lidar phase classification and the COSP "
     "emulation, for stratiform, convective and all hydrometeors, and the phase ratios counted from them, are what the reported signal of the same "
     "observation implies under the options of that observation - however often and with whatever other instruments and options the model was observed before.",
     ["histories", "inputs", "configurations", "schedules"],
     "all signals, thresholds, directions, height ranges, zero conventions, sequences of observations",
     "The tests check a few mask values of one case and never re-observe a model.",
     [("radar classification", CLS + ":radar_classify_phase"), ("lidar classification", CLS + ":lidar_classify_phase, lidar_emulate_cosp_phase"),
      ("phase ratios", CLS + ":calculate_phase_ratio"), ("sensitivity", ATT + ":calc_radar_Ze_min"), ("sensitivity", RAD + ":calc_total_reflectivity"), ("extinction", LID + ":calc_LDR_and_ext")],
     ["Ze_min, detect_mask, ext_mask, *phase_mask*, *_fpr, *_mpr"],
     "histories of observations under seeded schedules, each mask re-derived by a reference model from the signal of the same observation",
     GEN_TRUST + " Cells within 1e-9 of a threshold are not judged; COSP masks and mass ratios are judged without snow/graupel classes.")

prop("P22", "Each subcolumn is observed by itself",
     "The signal of a subcolumn is the same whichever other subcolumns are observed with it, in whatever order and however often repeated, and whatever "
     "unusable values (missing, infinite, negative, huge) the others hold; such values do not stop the observation; and no class is seen in a subcolumn "
     "and level that does not hold it.",
     ["inputs", "schedules", "configurations", "fault_sequences"],
     "all selections and orders of subcolumns, corruptions of others, models, instruments, options, schedules",
     "The tests observe one set of subcolumns and never compare two.",
     [("per-column tasks", RAD + ":calc_radar_micro"), ("per-column tasks", LID + ":calc_lidar_micro"),
      ("vectorised paths", RAD + ":calc_radar_bulk, calc_radar_empirical"), ("vectorised paths", LID + ":calc_lidar_bulk, calc_lidar_empirical")],
     ["sub_col_* and mask fields of the returned model's dataset"],
     "seeded schedules over drawn subcolumn selections and corrupted subcolumns, differential per subcolumn",
     GEN_TRUST)

prop("P23", "Looking at results shows what is there and changes nothing",
     "A display or statistics plot draws the values the simulated model holds for the place, subcolumn, time, level coordinate and mask asked for (a mean "
     "profile draws their mean, its shading one standard deviation), whatever was displayed, switched, cut short or failed before; and no display or plot, "
     "completed or interrupted, changes the model, the instrument data or any array handed to it.",
     ["histories", "crash_points", "inputs", "configurations"],
     "all histories of displays, place and model switches, plots, interruptions and failed allocations on simulated places, regions and sets of columns",
     "The tests compare a few images drawn once from fresh displays; they never switch, interrupt or look at what is left behind.",
     [("displays", "emc2/plotting/subcol_display.py:SubcolumnDisplay"), ("switching place or model", "emc2/plotting/subcol_display.py:_switch_lat_lon, _switch_model"),
      ("statistics plots", "emc2/statistics_LLNL/statistical_plots.py:plot_every_subcolumn_timeseries_*, plot_radar_CFAD, plot_lidar_SR_CFAD")],
     ["values and coordinates of the drawn meshes and lines", "model.ds, instrument.ds and arguments before and after"],
     "seeded histories of display operations with interruptions and failed allocations at drawn lines; drawn data compared with the model's",
     GEN_TRUST)

prop("P24", "Statistics count each place's own samples where they belong",
     "Collected signals are the model's; a regridded value is the overlap-weighted mean of exactly the samples of its own place, time and subcolumn that its layer "
     "reaches; scattering ratios, cloud fractions and frequency diagrams count exactly their own samples - whatever grid is asked for, whatever unusable values "
     "other places and times hold, however often the steps are repeated or cut short; and no step changes its inputs.",
     ["inputs", "histories", "crash_points", "configurations"],
     "all simulated sets of columns, vertical grids (finer, coarser, uneven, beyond the model top), corrupted neighbours, interrupted and repeated steps",
     "The tests run one grid over one file and compare ranges; whether each sample lands in its own bin is a matter of every grid and every neighbour.",
     [("collecting", "emc2/statistics_LLNL/statistical_aggregation.py:get_radar_lidar_signals"), ("regridding", "emc2/statistics_LLNL/statistical_aggregation.py:COSP_CHANGE_VERTICAL_GRID"),
      ("counting", "emc2/statistics_LLNL/statistical_aggregation.py:calculate_lidar_CF, get_cfaddBZ, get_cfad_SR")],
     ["returned arrays", "inputs before and after"],
     "seeded histories of aggregation steps over simulated columns with corrupted neighbours, interruptions and failed allocations; recounted results",
     GEN_TRUST)

prop("P25", "Saved statistics are complete or absent, and saving changes nothing",
     "A statistics file holds the whole simulation together with exactly the frequency diagrams, cloud fraction and reflectivity bins handed over, whatever "
     "was saved before; saving leaves the simulation in memory and the arguments as they were. A save cut short by a disk error or the death of the process "
     "leaves the old content, the complete new content, or - where no file was - nothing under the requested name, and a save that returns is complete.",
     ["histories", "crash_points", "fault_sequences", "inputs"],
     "all histories of statistics saves (grids, bins, names new or in use) with disk errors, short writes and process deaths at every operation of a save",
     "No test saves statistics; no test can place a fault or a process death inside a save, or look at what a second save finds.",
     [("saving", "emc2/statistics_LLNL/statistical_output.py:save_cfads_to_nc")],
     ["the saved file read back", "model.ds and arguments before and after"],
     "seeded histories of saves with faults at drawn file operations (shim below the netCDF library), forked processes for deaths; contents compared exactly",
     GEN_TRUST)

prop("P26", "Saves and loads of one file at the same time never mix",
     "Any number of processes or threads may save subcolumns or statistics to one file name, and load from it, at the same time: every load gets a complete "
     "save, every save succeeds, the whole history is one some order of the operations explains, and afterwards one file with one complete save is there and "
     "nothing else. A process that is killed or meets a disk error in the middle does not disturb the others.",
     ["schedules", "crash_points", "fault_sequences", "histories"],
     "all interleavings of file operations of processes on one file system, or of lines of threads in one process, and all points of death or error of some",
     "The tests save once, alone; no test interleaves two saves or a save and a load.",
     [("saving and loading", MOD + ":Model.subcolumns_to_netcdf, load_subcolumns_from_netcdf"), ("saving statistics", "emc2/statistics_LLNL/statistical_output.py:save_cfads_to_nc")],
     ["what every load yields, what every save raises, the directory afterwards"],
     "forked processes gated at every file operation (or threads at every line) by a seeded scheduler, deaths and disk errors at drawn operations; recorded "
     "histories checked to be linearizable as one atomic file",
     GEN_TRUST)

# --- further properties---------------------------------------------------------------------------

def na(i, title, statement, qtext, why, mech, reason):
    return {"id": i, "title": title, "statement": statement, "over": ["inputs"], "qtext": qtext, "why": why, "mech": mech, "observe": [], "state": [],
            "files": sorted({w.split(":")[0] for _, w in mech}), "reason": reason}


PURE = ("a statement about the value of a pure function of its arguments: no schedule, draw, clock, file operation, fault, history or second party can change "
        "the answer, so deterministic simulation has nothing to search; deciding it takes a numerical oracle over inputs, which is another technique")
NA = [
    na("N01", "Fitted size distributions have the moments they were fitted to",
       "For every positive mixing ratio and number concentration, the size distribution assigned to a class integrates to that number and that mass.",
       "all mixing ratios, number concentrations, densities and dispersion settings", "A few values are tested; the claim is over all inputs.",
       [("fit", "emc2/simulator/psd.py:calc_mu_lambda")], PURE),
    na("N02", "Single-particle scattering agrees with theory",
       "Scattering cross sections, asymmetry and refractive indices of a particle agree with Mie theory and the cited tables for every wavelength, diameter and temperature.",
       "all wavelengths, diameters, refractive indices", "A few values are tested; the claim is over all inputs.",
       [("Mie code", "emc2/scattering/mie_scattering.py"), ("refractive index", "emc2/scattering/ref_index.py")], PURE),
    na("N03", "Gaseous absorption follows the cited formula",
       "The gaseous attenuation coefficient of a radar beam is the one of the cited line-by-line approximation for every pressure, temperature, humidity and frequency.",
       "all pressures, temperatures, humidities and frequencies", "A few values are tested; the claim is over all inputs.",
       [("formula", "emc2/simulator/attenuation.py:calc_radar_atm_attenuation")],
       PURE + "; its accumulation along the beam, which depends on placement and order, is claimed as P20"),
    na("N04", "Model fields are converted to the documented units",
       "Each supported model's file is presented with pressure in hPa, height in m, number in cm-3 and radius in micrometres, whatever units the file states.",
       "all values in a model file", "One small file per model is tested; the claim is over all values.",
       [("loaders", "emc2/core/model.py:ModelE, E3SMv1, E3SMv3, DHARMA, WRF")],
       PURE + "; what depends on files being read, cropped, stacked and faulted is claimed as P12 and P13"),
]


def main():
    done = {p["id"] for p in P if os.path.exists(os.path.join(HERE, "simkit", "props", p["id"].lower() + ".py"))}
    with open(os.path.join(HERE, "properties.jsonl"), "w") as f:
        for p in P + NA:
            a = {"files": p["files"], "mechanism": [{"name": n, "where": w} for n, w in p["mech"]]}
            if p["state"]:
                a["state"] = [{"name": n, "meaning": m, "where": w} for n, m, w in p["state"]]
            if p["observe"]:
                a["observe_at"] = p["observe"]
            f.write(json.dumps({"id": p["id"], "title": p["title"], "statement": p["statement"],
                                "quantifier": {"over": p["over"], "text": p["qtext"]}, "why_tests_cant": p["why"], "anchors": a}) + "\n")
    checks = []
    for p in P:
        if p["id"] not in done:
            continue
        checks.append({"property": p["id"], "quick_cmd": "./run.sh %s --tier quick" % p["id"],
                       "thorough_cmd": "./run.sh %s --tier thorough" % p["id"], "evidence_file": "evidence/%s.json" % p["id"],
                       "technique": TECH + p["technique"], "level": p["level"], "level_note": p["note"]})
    man = {"version": 1, "setup_cmd": "./setup.sh", "checks": checks,
           "not_applicable": [{"property": p["id"], "reason": p["reason"]} for p in NA] +
           [{"property": p["id"], "reason": "its check is not built yet"} for p in P if p["id"] not in done],
           "notes": "No hooks in /repo: every seam is one the code already has (dask's scheduler setting, numpy's global generator, the time "
                    "module, the file system through libc) or is opened from outside the package (line events of sys.monitoring)."}
    with open(os.path.join(HERE, "MANIFEST.json"), "w") as f:
        json.dump(man, f, indent=1)
        f.write("\n")


if __name__ == "__main__":
    main()
