"""What each check runs. cases = (quick, thorough) per run; time = wall limit per worker (s)."""

def R(bin, quick, thorough, profile="release", tq=100, tt=1200, rayon=2, shards=8, env=None):
    return dict(bin=bin, cases=(quick, thorough), time=(tq, tt), profile=profile, rayon=rayon,
                shards=shards, env=env or {})

SPEC = {
    "C01": dict(
        runs=[R("c01", 3000, 60000), R("c01", 900, 15000, "checked")],
        floor=200,
        rule="a case is a random table (1..6 columns of every feature kind) x random configuration; synthetic cases train "
             "several trees with dictated gradients and compare every leaf's example set (seen by an Objective probe) with "
             "predict_single; boosted cases compare tracked and returned predictions; non-trivial = a tree with >= 2 leaves",
        assumptions=["float rounding between tracked and returned boosted predictions below 1e-5 of the largest leaf value per iteration"]),
    "C04": dict(
        runs=[R("c04", 24000, 400000), R("c04", 6000, 60000, "checked")],
        floor=500,
        rule="a case is a shape (block count, mask contents, index list, stored values); every kernel is called on it and compared "
             "with a scalar loop; all cases are non-trivial, distinct by content fingerprint",
        assumptions=["masks and index lists satisfy the kernels' documented layout (whole 256-bit blocks, indices in range)"]),
    "C02": dict(
        runs=[R("c02", 9000, 120000), R("c02", 2400, 20000, "checked")],
        floor=2000,
        rule="a case is a random table x configuration; a conservation monitor on the Objective interface sees every leaf and every "
             "out-of-bag update of every tree; non-trivial = a tree with >= 2 leaves",
        assumptions=["float rounding of one prediction update below 1e-5 relative"]),
    "C03": dict(
        runs=[R("c03", 16000, 200000), R("c03", 3000, 30000, "checked")],
        floor=2000,
        rule="a case is a random table x configuration with gradients on the discretization grid; every node of every tree is compared "
             "with an exact search over all active features and candidate splits; non-trivial = a tree with >= 1 split",
        assumptions=["gains are compared with tolerance 1e-6 * bound^2 * bag size (float rounding of the learner's f32 sums)"]),
    "C05": dict(
        runs=[R("c05", 60000, 900000), R("c05", 12000, 120000, "checked")],
        floor=5000,
        rule="a case is 60 operations (integer and scaled writes, block writes and copies, masked sums, resizes) on a bit-slice of width "
             "1/2/4/8, checked against an array of integers; distinct by operation sequence",
        assumptions=["a scaled value within float rounding of a tie may round either way"]),
    "C06": dict(
        runs=[R("c06", 120000, 1500000), R("c06", 24000, 240000, "checked")],
        floor=5000,
        rule="a case is a sequence of 60-80 container operations, a set of constructions, or one run of all 10 iterators/for-each forms "
             "(also stopped early), checked against booleans; distinct by contents; non-trivial = at least one bit set"),
    "C07": dict(
        runs=[R("c07", 80000, 1000000), R("c07", 16000, 160000, "checked")],
        floor=5000,
        rule="a case is 60-70 allocations, frees, writes, pair accesses, subtractions and resets on one store, checked against separate "
             "arrays; distinct by operation sequence"),
    "C22": dict(
        runs=[R("c22", 160000, 2000000), R("c22", 32000, 300000, "checked")],
        floor=5000,
        rule="a case is a binner (limits, bin count) with inserted values, or bin contents with rank queries; distinct by contents",
        assumptions=["a value within float rounding of a bin edge may go to either neighbour"]),
    "C10": dict(
        runs=[R("c10", 12000, 160000), R("c10", 3000, 30000, "checked")],
        floor=2000,
        rule="a case is a random table x configuration with dictated gradients over several dataset updates; every bit of every active "
             "feature's candidate splits is compared with the column; non-trivial = at least one active feature with a split",
        assumptions=["numerical split values are located within the resolution of the code's own pre-binning histogram"]),
    "C11": dict(
        runs=[R("c11", 6000, 80000), R("c11", 1500, 15000, "checked")],
        floor=1000,
        rule="a case is a sampling configuration followed over several updates (membership, order, complement, schedule, seed), or a "
             "statistic over many seeds (each example and feature selected equally often); distinct by case seed",
        assumptions=["uniformity is accepted within 6.5 standard deviations of the binomial law (deterministic per seed)"]),
    "C12": dict(
        runs=[R("c12", 40000, 500000), R("c12", 8000, 80000, "checked")],
        floor=2000,
        rule="a case is an objective x targets x configuration over several updates and leaf assignments, compared with an f64 "
             "implementation of the documented formulas; distinct by contents"),
    "C09": dict(
        runs=[R("c09", 1600, 20000, rayon=3), R("c09", 400, 3000, "checked", rayon=3)],
        floor=500, special="c09",
        technique="runtime monitoring: differential monitor over repeated, concurrent and differently scheduled executions",
        rule="a case is a table (with duplicated columns, so that splits tie) x configuration trained once as the reference and again "
             "after other trainings, in thread pools of 1..16, concurrently, in other processes and with fewer iterations; every gradient, "
             "leaf, prediction is compared bit by bit; non-trivial = the model's predictions on new data are not constant; distinct by "
             "case and predictions",
        assumptions=["schedules are those the operating system produced under oversubscription; none are enumerated"]),
    "C13": dict(
        runs=[R("c13", 4000, 50000), R("c13", 1000, 10000, "checked")],
        floor=2000,
        rule="a case is a random table x L2 configuration; squared error of every iteration over the examples it trained on, mean residual "
             "of every leaf before and after, and error of models with growing numbers of trees, in f64; non-trivial = an iteration with a split",
        assumptions=["float rounding slack of 1e-5 relative plus 3e-7 of the largest target per prediction"]),
    "C14": dict(
        runs=[R("c14", 120000, 1500000), R("c14", 24000, 200000, "checked")],
        floor=5000,
        rule="a case is a rendered CSV file (compared value by value with what was written), a file with one planted defect (must be an "
             "error), a mutated file (must not panic) or a sequence of column writes; distinct by file contents"),
    "C15": dict(
        runs=[R("c15", 600000, 8000000), R("c15", 120000, 1000000, "checked")],
        floor=5000,
        rule="a case is a sequence of valid and invalid records on all 23 fields compared with a model of the configuration after each, "
             "arbitrary text, or the generated documentation compared with the model; distinct by record contents",
        assumptions=["the table of fields, types and defaults in the harness is the documented one"]),
    "C16": dict(
        runs=[R("c16", 12000, 150000), R("c16", 3000, 20000, "checked")],
        floor=1000,
        rule="a case is a random sequence of 20-70 interface calls, correct and wrong, on up to 3 contexts, each return code compared with a "
             "model and each prediction buffer bit by bit with the library; non-trivial = at least one training; distinct by predictions",
        assumptions=["pointers passed are valid or NULL, as the interface demands"]),
    "C17": dict(
        runs=[R("c17", 60000, 800000), R("c17", 12000, 100000, "checked")],
        floor=5000,
        rule="a case is a metric x target/prediction vectors compared with the f64 definition, a list of names, or a training whose metric "
             "calls are recorded; distinct by contents",
        assumptions=["float rounding of the f32 running sum: n * 1.2e-7 relative"]),
    "C18": dict(
        runs=[R("c18", 14000, 180000), R("c18", 3500, 30000, "checked")],
        floor=2000,
        rule="a case is a set of hand-made trees evaluated by the harness, or a trained model; rows are predicted again permuted, repeated, "
             "alone and through every entry point and compared bit by bit; distinct by case"),
    "C21": dict(
        runs=[R("c21", 1800, 25000), R("c21", 400, 4000, "checked")],
        floor=500,
        rule="a case is a table x configuration trained with 3-6 thresholds from always to never; leaves, gradients, out-of-bag updates and "
             "predictions compared bit by bit; non-trivial = at least one leaf confined to less than half of the words"),
    "C20": dict(
        runs=[R("c20", 60000, 800000), R("c20", 16000, 150000, "checked")],
        floor=5000,
        rule="a case is a degenerate table (20 column shapes, 17 target shapes, 1 to 1500 examples) x extreme configuration, trained by "
             "boosting or as a single tree and predicted on itself and on foreign rows: no panic, termination, finite values; distinct by contents",
        assumptions=["hinge runs are limited to 4 iterations because of the listed finding; the finding's own input is run separately"]),
    "C19": dict(
        runs=[R("c19", 14000, 150000)],
        floor=1000, also_build=["run_bitboost", "bitboost_gen_config_csv"],
        rule="a case is one run of the program as a process on generated files: raw predictions compared bit by bit and metrics to printed "
             "precision with the library in the harness's process, or one of 19 planted mistakes (must exit non-zero, without panic or signal, "
             "with a message); distinct by files and arguments",
        assumptions=["metric values are compared to the five digits printed"]),
    "C08": dict(
        runs=[R("c08", 10000, 200000), R("c08", 3000, 40000, "checked")],
        floor=2000, special="c08",
        technique="runtime monitoring: monitoring allocator, AddressSanitizer, MemorySanitizer, ThreadSanitizer and Miri over the workloads of all monitors",
        rule="a case is a case of another monitor (19 of them), a whole pipeline through the library or the C interface repeated with different "
             "fill patterns of fresh memory, a pipeline repeated 40 times, or threads sharing data and model; the first two runs use the "
             "monitoring allocator, then the same cases run under ASan, MSan, TSan and (small) Miri; distinct by case",
        assumptions=["schedules are those the operating system (or Miri's seeded scheduler) produced",
                     "Miri's tree-borrows aliasing model; red zones of 64 bytes"]),
    "C23": dict(
        runs=[R("c23.py", 4000, 60000), R("c23.py", 800, 8000, "checked")],
        floor=1000, special="c23",
        technique="runtime monitoring: differential monitor on the Python package and a protocol monitor between it and the C interface",
        rule="a case is a sequence of calls on raw objects or estimators (layouts, types, categorical lists, refits, several objects, threads, "
             "misuse), predictions compared bit by bit with direct calls of the C interface on canonical arrays; non-trivial = predictions "
             "that are not constant; distinct by predictions",
        assumptions=["scikit-learn is absent: its five imported names are replaced by stand-ins with the documented behaviour"]),
    "C24": dict(
        runs=[R("c24", 3600, 50000)],
        floor=1000,
        technique="runtime monitoring: counting allocator over repeated work, with a model of the memory one tree needs",
        rule="a case repeats one piece of work (identical or sampled trees on one learner context, a long boosting run, rounds on one context of the "
             "C interface, predictions, loads good and bad) or grows one deep tree, while every allocation and release is counted; live bytes may "
             "not grow with the repetitions, nor the peak with the number of nodes; non-trivial = trees with splits, or more nodes than memory "
             "allows to keep; distinct by contents",
        assumptions=["16 KiB of slack for the thread pool and the standard library",
                     "one tree may take 2 to 4 times the memory its depth, size and bin counts account for"]),
}
