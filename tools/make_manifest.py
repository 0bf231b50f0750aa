"""writes MANIFEST.json from the table below"""
import json
import os
HERE = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
T = "contract-based deductive verification: contracts executed over the real functions, verification conditions discharged by z3/cvc5"
NUMPY = "NumPy primitives are trusted contracts; real machine arithmetic is not modelled"
NOTE = {
    "C01": "all obligations discharged for every channel count, length, offset, parameter and number of labels; " + NUMPY,
    "C02": "all obligations discharged for every shape, offset and operator; sample arithmetic uninterpreted; " + NUMPY,
    "C03": "all obligations discharged for every shape and operator; sample arithmetic uninterpreted; " + NUMPY,
    "C04": "all obligations discharged for every shape, offset and operator; sample arithmetic uninterpreted; " + NUMPY,
    "C06": "all obligations discharged for every shape, offset and shift, except one known finding (cyclic shift beyond the length); " + NUMPY,
    "C07": "all obligations discharged for every shape and key; " + NUMPY,
    "C08": "all obligations discharged for every shape, offset and mode; products of samples are uninterpreted (commutative, zero absorbing), sums are compared by re-indexing; the contracts of numpy.convolve, numpy.correlate and the convolution theorem for rfft/irfft are trusted; " + NUMPY,
    "C09": "all obligations discharged for the full transform, its inverse and the round trip for every shape and offset; the discrete Fourier transform itself is the trusted contract of numpy.fft (its inverse cancels it), exp is uninterpreted; block-wise and short time transforms (scipy) are bounded run-time checks, not counted as proved; " + NUMPY,
    "C10": "all obligations discharged for one to three (thorough: four) inputs with any number of channels, samples and offsets, and for histories of add/replace/remove of that size; the number of inputs is bounded by case enumeration, everything else is unbounded; " + NUMPY,
    "C11": "all obligations discharged for one to three inputs with any number of channels, samples and offsets (case distinction over the order of the data sets' borders), and for histories of add/replace/remove of that size; more inputs and narrow data types are bounded run-time checks, not counted as proved; samples are mathematical reals or complex numbers; " + NUMPY,
    "C12": "all obligations discharged for every combination of a term class with arbitrary sub-terms (opaque terms, of which only the contract of a term is known, so that the nesting depth is unbounded), all coefficients and all frequencies but zero; polynomials with up to four coefficients and sums or products of up to four terms (enumerated); machine arithmetic is treated as exact complex arithmetic, of exp, sin, cos and the absolute value only elementary facts are used; " + NUMPY,
}
NOTE["C13"] = "all obligations discharged for every number of channels, every frequency, length and resolution; the transfer functions of the channels are opaque terms of which only the contract of a term is known; applying a filter to a signal is decided for terms without low-pass to high-pass transform; machine arithmetic is treated as exact complex arithmetic; " + NUMPY
NOTE["C14"] = "all obligations discharged for every cutoff frequency and every positive frequency, for orders 1 to 8 and a list of ripples (both enumerated); other ripples and orders up to 60 (Bessel 30) are bounded run-time checks, not counted as proved; complex exact arithmetic with the constants of the code, compared with a tolerance of 1e-9 (weighting filters 1e-6) by exact isolation of the real roots of polynomials; " + NUMPY
NOTE["C15"] = "all obligations discharged for every number of supporting points and frequencies, every flag, real and complex values (the logarithmic modes need positive points, respectively positive values); log2 and exp2 are monotonic, mutually inverse functions in exact arithmetic; what a stairs mode does exactly in the middle between two points is left open; bands filters are verified against the contracts of the interpolation functions; bands given as dictionaries and their conversions to and from decibels are bounded run-time checks, not counted as proved; " + NUMPY
NOTE["C16"] = "all obligations discharged for every length, plateau, parameter and interval; the window functions of NumPy and SciPy are trusted contracts: opaque functions of length, parameters and index, that are symmetric and one for a single sample; the slope of fades is an arbitrary function; " + NUMPY
NOTE["C19"] = "all obligations discharged for every shape, parameter, label and content; two hashes are equal, if they are computed from equal structured values (Python's hash is an unknown function); sub-terms are opaque terms; sums and products of two and three terms, polynomials and bands of any length; numbers that are not a number are excluded; " + NUMPY
NOTE["C05"] = "frame conditions and postconditions of all obligations discharged for every shape, rate, offset, parameter and content for the operations of the data sets, filters and terms, merging, concatenation, convolution and the harmonics of sweeps; levels, statistics and energy decay are proved under C17, whose contracts prove the frames as well; the level versus time, block-wise and short time transforms and the remaining modes of bands are bounded run-time checks; " + NUMPY
NOTE["C21"] = "all obligations discharged for every length, rate, frequency, phase and interval; sin, exp and log are uninterpreted functions with few facts in exact arithmetic; the register size of maximum length sequences is enumerated from 2 to 32 bits; max_len_seq (its values and its period) and the random generators of NumPy (a draw is an opaque function of method, parameters, seed, number of the call and index) are trusted contracts; " + NUMPY
NOTE["C20"] = "all obligations discharged for every signal length, offset, rate and content, up to two playback and two capture ports and up to three blocks of arbitrary sizes, which are enumerated (the first block brings the interface to an arbitrary position, so that further blocks repeat the case of the later ones); the audio server and its Python interface are a stand-in (trusted contract: pyvc/fakejack.py), which calls the callback without concurrency; the conversion of samples to 32 bit is not modelled; " + NUMPY
NOTE["C17"] = "all obligations discharged for the levels of signals and spectrums, mean, variance, standard deviation and the energy decay curve for every shape and content, in exact arithmetic; level versus time, skewness and kurtosis (SciPy), reverberation times and decay models are bounded run-time checks, not counted as proved; " + NUMPY
NOTE["C18"] = "all obligations discharged for every shape, parameter, label and content of data sets in JSON, NPZ, NPY and pickle files, and for filters with opaque or nested terms in JSON and pickle files; the file system and the encoders of json, pickle and NumPy are a stand-in (trusted contract: pyvc/fakefiles.py); CSV files, text representations, tables of bands, audio files, other sample types and arbitrarily nested terms are bounded run-time checks, not counted as proved; " + NUMPY
NA = {}
ids = [json.loads(x)["id"] for x in open(os.path.join(HERE, "properties.jsonl"), encoding="utf-8")]
m = {"version": 1,
     "setup_cmd": "/opt/venv/bin/python -B tools/setup.py",
     "checks": [{"property": i, "quick_cmd": f"/opt/venv/bin/python -B check.py --property {i}",
                 "thorough_cmd": f"/opt/venv/bin/python -B check.py --property {i} --tier thorough",
                 "technique": T, "level": "proof", "level_note": NOTE[i], "evidence_file": f"evidence/{i}.json"} for i in ids if i in NOTE],
     "not_applicable": [{"property": i, "reason": NA.get(i, "contracts not written yet")} for i in ids if i not in NOTE],
     "hooks": {"guard": "VERIF_HOOKS", "enable": "no hooks are needed: the checks load /repo's sources unmodified and instrument them in memory", "source_commits": []},
     "notes": "see DESIGN.md"}
json.dump(m, open(os.path.join(HERE, "MANIFEST.json"), "w", encoding="utf-8"), indent=1)
