"""writes DESIGN.md from tools/design_template.md, the plan below, known-findings.json and seeded/"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
PLAN = {
"C01": "Constructors and all derived parameters of signals, spectrums, spectrograms and filters for symbolic shapes, parameters and label sequences of symbolic length; postcondition: stored data, one label per channel, all derived values.",
"C02": "`Signal` operators for two signals with symbolic channels, lengths and offsets (all relations of the two time spans are paths), numbers and arrays on both sides, unary operators. Oracle: the operation of the samples at the same point in time, stated per absolute time index. Notes: outside of both operands the result is 0; covered by self only: self's sample; covered by other only: the pivot (identity, negative, reciprocal).",
"C03": "As C02 for the bins of spectrums; different lengths must raise (also length 1, which NumPy would broadcast).",
"C04": "As C02 for spectrograms in the time-frequency plane, with signals and spectrums as other operand.",
"C05": "Every public operation, alone and followed by a second one on its result (which may share memory with the operand), is executed on symbolic operands; afterwards the operand must hold the same array object, labels and parameters (postconditions), and no element of any array of an operand may have been written to: the engine records every store with the memory that it goes to, and the proof ends with the obligation that each of these lies outside of the operands' arrays. Filters must evaluate to the same values as before. The frames of levels, statistics and energy decay curves are proved by the contracts of C17; the level versus time, block-wise and short time transforms are checked at run time only (bounded).",
"C06": "`pad`, `shift` in all modes, `__reversed__` for symbolic lengths, offsets and shifts; per-sample postconditions.",
"C07": "`__getitem__` with every kind of key per axis (integer, fraction, slice with symbolic start/stop/step, tuples); oracle: the elements that Python's slice semantics select.",
"C08": "`convolve`/`correlate` in every mode; each output sample's symbolic sum is compared with the definition by re-indexing; the SPECTRUM mode rests on the trusted convolution theorem (circular, period = next even number >= the longer length).",
"C09": "`fourier_transform`, `inverse_fourier_transform` and the round trip; the DFT is the trusted contract of numpy.fft; block-wise and short time transforms are bounded (scipy.signal.stft, complex loops of exponentials).",
"C10": "`Merge` for 1-3 (thorough 4) inputs with symbolic channels, shapes and offsets, both modes, and histories of add/replace/remove; the number of inputs is enumerated.",
"C11": "`Concatenate` for 1-3 inputs with symbolic channels, shapes and offsets; the order of the borders of the data sets is a case distinction that is complete; histories of add/replace/remove. More than three inputs and narrow data types are bounded.",
"C12": "Every class of terms on the left x every class the operators distinguish on the right x operator, sub-terms opaque (any nesting), all coefficients symbolic, evaluated at a symbolic frequency != 0, with and without transform; quick tier: the right classes that the factories distinguish, thorough: all pairs. Polynomials up to four coefficients and sums/products up to four terms are enumerated. Divisors are assumed to be non-zero.",
"C13": "`Filter` operators, indexing and the three evaluation paths for a symbolic number of channels with opaque terms; application to spectrums, spectrograms and signals.",
"C14": "The real filter classes are created with a symbolic cutoff frequency and evaluated at a symbolic frequency (x times the cutoff frequency); orders and types are enumerated, ripples from a list. The result is a rational function of x, whose real and imaginary part are compared with the prototype's transfer function (poles from the textbook formula) and whose squared magnitude is compared with the defining formula (Chebyshev polynomials by recurrence). The comparison |a-b| <= tolerance*scale for all x > 0 is decided by exact root isolation of the difference polynomials (`pyvc/univariate.py`); the same procedure shows that no denominator vanishes. Weighting filters against the published pole frequencies.",
"C15": "All interpolation functions, `get`-style decorators and the `Bands` term for a symbolic number of strictly increasing supporting points and symbolic evaluation points; `searchsorted` is a contract (monotone rank).",
"C16": "All window classes for symbolic length, plateau (integer or fraction) and parameter, symmetric and periodic; the window functions of NumPy and SciPy are opaque (the coefficients of sums of cosines are part of the specification); mirror symmetry is a lemma on the postcondition. Fades for an arbitrary slope function and all positions of both intervals.",
"C17": "Levels, mean, variance, standard deviation and the energy decay curve for symbolic shapes and contents: sums are compared by congruence and re-indexing, the contracts of norm, mean, var, std, cumsum and fsum are their definitions as sums. Level versus time against the brute force weighting of every sample, reverberation times against the normal equations, higher moments against their definitions: executed contracts on random signals, in particular integration times around the length of the signal.",
"C18": "`save` and `load` with the format given, told by the file's extension, or detected from the content, for symbolic data sets; the loaded data set must be equal, with equal hash (so that parameters are numbers). The real writers and readers are executed; only the encoders of third parties (json, pickle, numpy) and the file system are stand-ins, with the restrictions of the formats (JSON has no tuples, complex numbers or NumPy types; NumPy's files have only arrays and drop trailing NUL characters). Formats whose code parses text or samples itself (CSV, tables, audio) are checked by executing the contracts on random data sets, including long ones that exceed the buffers.",
"C19": "`==`, `!=` and `hash` of all containers, filters and terms for symbolic operands: equal implies same shape, parameters, labels and content; the same content implies equal and equal hashes (a hash is an unknown function of the structured value it is computed from, so that a hash that looks at the representation of a number is refuted); one changed sample, label or parameter at an arbitrary position implies unequal; other kinds are unequal without an exception; every pair of term classes.",
"C20": "`Jack` against a stand-in of the audio server and its Python interface, whose buffers hold arbitrary samples: histories of up to three blocks of arbitrary (symbolic) sizes, each playback buffer and the recorded signal compared per absolute sample index; silence before, after and in the block that ends the processing; second recordings; xruns. Public methods and the registered callbacks only, so that private state may be represented differently.",
"C21": "Generators for symbolic lengths, rates, frequencies, phases and intervals (integers and fractions, negative ones included), both branches of the sweeps (NumPy, NumExpr). The oracle is written from the definition (the phase of a sweep is the integral of its instantaneous frequency); sin, exp and log are uninterpreted. The doubling loop of the Rudin-Shapiro sequence is verified with an invariant (the prefix that is filled follows the recursive definition of the sequence). Maximum length sequences for 2..32 bits; noise signals against opaque draws of the random generator. Cutting harmonics out of an impulse response: the cut starts log(harmonic) times the sweep rate before the linear response and is advanced by the remaining fraction of a sample, proved against the definition of the discrete Fourier transform.",
}
t = open(os.path.join(HERE, "tools", "design_template.md"), encoding="utf-8").read()
m = json.load(open(os.path.join(HERE, "MANIFEST.json")))
claimed = {c["property"]: c for c in m["checks"]}
na = {c["property"]: c["reason"] for c in m["not_applicable"]}
out = []
for line in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8"):
    p = json.loads(line)
    i = p["id"]
    out.append(f"### {i} {p['title']}\n\n{PLAN[i]}\n")
    out.append(f"Level: {claimed[i]['level']}; {claimed[i]['level_note']}.\n" if i in claimed else f"Not claimed: {na[i]}.\n")
k = json.load(open(os.path.join(HERE, "known-findings.json")))["findings"]
fixes = "\n".join("* " + f["what"] for f in k if f["status"] == "fixed")
sd = os.path.join(HERE, "seeded")
res = {}
rp = os.path.join(HERE, "tools", "seed_results.json")
if os.path.exists(rp):
    res = json.load(open(rp))
seeds = ["| bug | property | what it breaks | needs | caught by |", "|---|---|---|---|---|"]
for n in sorted(os.listdir(sd)):
    q = json.load(open(os.path.join(sd, n, "meta.json")))
    seeds.append(f"| {n} | {q['property']} | {q['what_it_breaks']} | {q['needs']} | {res.get(n, '')} |")
t = t.replace("@@PROPERTIES@@", "\n".join(out)).replace("@@FIXES@@", fixes).replace("@@SEEDS@@", "\n".join(seeds))
open(os.path.join(HERE, "DESIGN.md"), "w", encoding="utf-8").write(t)
