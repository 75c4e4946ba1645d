RM = "runtime monitoring: "
TECH.update({
 "C01": RM + "every SFR returned by the real entry points is checked online against an independent float64 model, on generated galaxies x halos x cosmologies x grids in both precisions",
 "C02": RM + "perturbation monitor: neighbours poisoned, permuted, replaced and time grids cut; each galaxy and time compared with its undisturbed run",
 "C03": RM + "phase monitor on the quenching factor observed through real histories (before, falling, bottom, rising, after) plus float64 model",
 "C04": RM + "causality monitor: later causes are changed and earlier values compared bit for bit; frozen-mass oracle after the peak",
 "C05": RM + "conservation monitor: every returned stellar mass re-integrated from the returned SFR; additivity and causality oracles",
 "C06": RM + "conservation monitor: gas + stars - fb x accreted mass at every galaxy and time; rates against masses",
 "C07": RM + "online oracle of mathematical definitions on every helper call over generated grids and limits",
 "C08": RM + "bounds, monotonicity, independence and round-trip monitors on generated and extreme parameter vectors",
 "C09": RM + "coordinate-by-name bounds, sweep and round-trip monitors; census of every shipped calibration",
 "C10": RM + "every mean and covariance compared by name with an independent float64 model; blindness and dependence monitors",
 "C11": RM + "probability, monotonicity and blindness monitors on quenched fractions against a float64 model",
 "C12": RM + "cross-entry-point trace comparison of draws under one key, flag/fraction consistency monitor, re-draw equality",
 "C13": RM + "statistical monitor on recorded draws standardised with the reference law (6.5 sigma thresholds)",
 "C14": RM + "gradient monitor: forward and reverse derivatives of the real functions against extrapolated finite differences, finiteness at hostile points",
 "C15": RM + "conservation and model monitor on every bin of generated point clouds in 1-4 dimensions",
 "C16": RM + "losses and predictions rebuilt from the recorded Monte Carlo population of the same keys and compared",
 "C17": RM + "fault injection into the loss/gradient a driver calls, enumerated over restart outcomes and steps; trace checker over the recorded calls and the return value",
 "C18": RM + "targets, weights, model and loss recomputed in float64 from the history and the options; fits checked against their own returned loss",
 "C19": RM + "offline comparison of everything written with everything read back, galaxy by galaxy",
 "C20": RM + "loaders run on synthetic catalogues of known content; every returned number compared, directory digests before and after",
 "C21": RM + "stress: repeated, reordered, concurrent (8 threads, tiny switch intervals), uncompiled, nested and cross-process executions compared; input/constant/global-state watch",
 "C22": RM + "field-by-field exact comparison for generated merges and selections; float64 matrix algebra oracle",
 "C23": RM + "the real scripts run in real rank processes under a scheduler that picks the interleaving at every MPI call, file operation and fit; trace and final file-system state checked",
 "C24": RM + "the real measurement scripts run in real rank processes under a scheduler; written tables compared with sums over the synthetic catalogue; trace and final file-system state checked",
 "C25": RM + "the real assembly helpers and fit script executed on synthetic measured files; every drawn galaxy, weight and target traced back to its file; descent observed through a recording, fault-injecting loss",
 "C26": RM + "the real script executed on synthetic catalogues; every saved table compared with direct averages in float64",
})
SAMPLE = "Holds on every execution observed; inputs are sampled (stratified, seeded), not enumerated. "
NOTE.update({
 "C01": SAMPLE + "float32 is judged within propagated rounding, so a float32-only slip below about 1e-4 dex would pass; float64 catches 1e-10.",
 "C13": SAMPLE + "A distributional bias below about 6.5 sigma of the drawn sample (a few percent of a standard deviation) is invisible.",
 "C14": SAMPLE + "A wrong slope is seen where finite differences resolve it.",
 "C17": "Every sequence of outcomes up to length 3 (thorough: 4) over six outcomes and every fault step of the descent is run; longer sequences are sampled.",
 "C21": "Histories, thread schedules and container kinds are sampled; overlap of calls is measured and recorded, not enumerated.",
 "C24": "Rank counts 1-6 and interleavings are sampled; MPI itself is a stand-in (mpi4py is not installed).",
 "C25": SAMPLE + "The global optimum is not judged: only that the best visited model is kept.",
 "C23": "Interleavings at MPI calls, file operations and fits are chosen by five policies and sampled, not enumerated; MPI itself is a stand-in (mpi4py is not installed).",
})
for _p in props:
    NOTE.setdefault(_p["id"], SAMPLE.strip())
