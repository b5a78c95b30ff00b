"""Properties that static analysis cannot decide here (not_applicable)."""
from properties import prop

prop("N01", "Calibration finds the gains that fit the model to the data",
     "For every solver, gain mode and constraint, the solutions written by "
     "gaincal and ddecal minimise the weighted difference between the data "
     "and the corrupted model, and a converged solution is a fixed point of "
     "the iteration.",
     ["inputs"], "all visibilities, models, weights, modes and solvers",
     "Convergence depends on the numerical values of all visibilities.",
     ["ddecal/gain_solvers", "steps/GainCal.cc"],
     [("solver iterations", "ddecal/gain_solvers")],
     na="A statement about the limit of floating-point iterations over "
     "runtime data; no sound static argument bounds it. The structural "
     "parts in reach are claimed elsewhere: the LAPACK problem handed over "
     "(C10), the resampling of solutions (C09), names selecting solvers "
     "(C06).")
prop("N02", "Predicted visibilities equal those of the sky model",
     "The visibilities predicted for a sky model are the sum over its "
     "components of brightness times the fringe of their direction, with "
     "the requested smearing and beam, to single precision.",
     ["inputs"], "all sky models, baselines, times and frequencies",
     "The result is a sum of trigonometric functions of runtime values.",
     ["base/Simulator.cc", "base/PredictModel.h"],
     [("Simulator::visit", "base/Simulator.cc")],
     na="Correctness is numerical agreement with transcendental functions "
     "of runtime geometry (and of casacore and EveryBeam, which are not "
     "installed); static analysis cannot bound the rounding or check "
     "measures conversions.")
prop("N03", "Averaging preserves the weighted mean of the data",
     "For every averaging factor and every pattern of flags and weights, "
     "the averaged visibility is the weighted mean of the unflagged samples "
     "and its weight is the sum of their weights.",
     ["inputs", "histories"], "all data, flags, weights and factors",
     "Tests use constant or linear data.",
     ["steps/Averager.cc", "steps/BdaAverager.cc"],
     [("Averager::average", "steps/Averager.cc")],
     na="The claim quantifies over accumulated floating-point values and "
     "over runtime flag patterns across buffers; its loops use casacore and "
     "xtensor iterators whose headers are not installed, so neither the "
     "index relation nor the values can be extracted soundly.")
prop("N04", "Flaggers flag the interference and only the interference",
     "Samples whose amplitude deviates from the local median or from the "
     "AOFlagger strategy's model by more than the threshold are flagged, "
     "others are not.",
     ["inputs"], "all visibilities and settings",
     "The decision depends on sorted windows of runtime amplitudes.",
     ["steps/MadFlagger.cc", "steps/AOFlaggerStep.cc"],
     [("MadFlagger::flag", "steps/MadFlagger.cc")],
     na="Which samples are flagged is a function of runtime amplitudes and "
     "of an external library (AOFlagger).")
prop("N05", "Written measurement sets read back with the same contents",
     "Data written to a measurement set, with or without lossy compression "
     "disabled, are read back bit for bit, with consistent metadata tables.",
     ["inputs", "crash_points"], "all data, tile sizes and storage managers",
     "Tests write a single small measurement set.",
     ["steps/MSWriter.cc", "steps/MsReader.cc"],
     [("MSWriter::WriteData", "steps/MSWriter.cc")],
     na="A round trip through casacore tables, which are not installed: "
     "neither the storage layer nor its types are available to analyse.")
prop("N06", "The parameter database returns what was stored",
     "Values stored for a parameter and domain are returned for every query "
     "of that domain, also through the table back end and after parallel "
     "writers.",
     ["inputs", "histories", "schedules"], "all parameters and domains",
     "Tests use one or two rectangular domains.",
     ["parmdb"],
     [("ParmDBCasa", "parmdb/ParmDBCasa.cc")],
     na="Equality of histories of an external database (casacore tables); "
     "the stored layout is not visible in the sources of this repository.")
prop("N07", "Phase rotation and UVW calculation are exact",
     "Moving the phase centre multiplies each visibility by the fringe of "
     "the difference and recomputes UVW coordinates that agree with "
     "casacore's measures to its precision.",
     ["inputs"], "all directions, times and baselines",
     "Only a few directions are sampled.",
     ["steps/PhaseShift.cc", "base/UVWCalculator.cc"],
     [("PhaseShift::process", "steps/PhaseShift.cc")],
     na="Numerical accuracy of transcendental functions and of casacore "
     "measures over runtime geometry.")
