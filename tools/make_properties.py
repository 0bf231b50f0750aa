import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe=None):
    d={"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,
       "anchors":{"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"hook_needed":None}}
    if observe: d["anchors"]["observe_at"]=observe
    assert len(title)<=80,title
    P.append(d)
SD="sumpf/_data/_sampled_data.py"; SIG="sumpf/_data/_signals/_signal.py"; SPM="sumpf/_data/_spectrums/_spectrum.py"; SGR="sumpf/_data/_spectrograms/_spectrogram.py"
FI="sumpf/_data/_filters/_base/_filter.py"; T="sumpf/_data/_filters/_base/_terms/"
p("C01","Data containers are well-formed and describe themselves consistently",
  "For every array, label sequence and set of parameters a signal, spectrum, spectrogram or filter is created from, the container stores exactly the given data and parameters, has exactly one label per channel (missing labels become empty strings, surplus labels are dropped, their order is kept), and its number of channels, shape, length, duration, sampling rate, resolution, maximum frequency, time axis and frequency axis are consistent with each other and with the stored data.",
  ["inputs","configurations"],"all channel counts, lengths, offsets, sampling rates, resolutions, label sequences (any length, or none)",
  "The tests construct a few containers with hand-picked sizes and label counts; the invariant quantifies over all sizes and all relations between label count and channel count.",
  [SD,SIG,SPM,SGR,FI,"sumpf/_internal/_functions.py"],
  [("label sanitising","sumpf/_internal/_functions.py:sanitize_labels"),("constructors and derived parameters",SIG+":Signal.__init__, duration, time_samples"),("frequency axes",SPM+":frequency_samples, maximum_frequency")])
p("C02","Sample-wise algebra of signals aligns time, channels and numbers correctly",
  "For any two signals with at least one channel, +, -, *, /, % and ** yield a signal that covers exactly the time span of both operands, where every sample in their overlap is the operation of the two samples at the same point in time, samples covered by only one operand are that operand's samples (for - and / by the right operand only: its negative or reciprocal), and uncovered samples are zero; a single-channel operand is applied to every channel of the other one, otherwise channels are paired by index and surplus channels are treated as covered by one operand only. With numbers and arrays as left or right operand, and for negation and absolute value, every sample is combined at its own position and the time span, sampling rate and labels of the signal are kept.",
  ["inputs"],"all pairs of signals (any channel counts >= 1, lengths >= 0, integer offsets, sampling rates), all numbers and broadcastable arrays, all six operators in both orders",
  "Tests sample a handful of shapes/offsets and compare with the same NumPy expressions; correctness must hold for every relative position of the two time spans, every channel-count combination and every operator.",
  [SIG,SD],[("shape dispatch",SIG+":_algebra_function"),("alignment of different shapes",SIG+":__algebra_function_different_shapes"),("pivot rules",SD+":__sub__, __truediv__")])
p("C03","Bin-wise algebra of spectrums pairs frequency bins and channels correctly",
  "For any two spectrums of the same length with at least one channel, +, -, *, / and ** yield a spectrum of this length with as many channels as the larger operand, where every bin is the operation of the two bins with the same channel and frequency index, a single-channel operand is applied to every channel of the other, and surplus channels hold the values of the only operand that has them (for - and / by the right operand only: its negative or reciprocal); operands of different lengths raise an error instead of giving a wrong result. With numbers and arrays on either side, negation, absolute value, inversion, real/imaginary part, magnitude and conjugate every bin is mapped at its own position and resolution and labels are kept.",
  ["inputs"],"all pairs of spectrums (any channel counts >= 1, any length, any resolutions), all complex numbers and broadcastable arrays, all operators in both orders",
  "Tests sample a few shapes; the alignment must be right for every pair of lengths, channel counts and operators.",
  [SPM,SD],[("shape dispatch",SPM+":_algebra_function"),("different shapes",SPM+":__algebra_function_different_shapes")])
p("C04","Algebra of spectrograms aligns time frames, frequencies and channels correctly",
  "For any spectrogram combined by +, -, *, / or ** with another spectrogram, the result covers the time frames and frequency bins of both operands, equals the operation of the two values wherever both have data for the same frame, bin and channel, equals the only present operand elsewhere (its negative or reciprocal, if it is the right operand of - or /), and is zero where neither has data; single-channel operands apply to every channel. With a signal on either side, each frame is combined with the sample at the same position for all frequencies, with a spectrum, each bin is combined with the bin of the same index for all frames; with numbers and arrays on either side, and for negation, absolute value, real/imaginary part, magnitude and conjugate, every value is mapped at its own position and all parameters and labels are kept.",
  ["inputs"],"all pairs of spectrograms (any channel counts >= 1, frequency and frame counts, integer offsets), all numbers and broadcastable arrays, all operators",
  "Tests sample a few shapes and offsets; correctness must hold for every relative position of the operands in the time-frequency plane.",
  [SGR,SD],[("shape dispatch",SGR+":_algebra_function"),("different shapes",SGR+":__algebra_function_different_shapes")])
p("C05","Operations never modify their operands",
  "No operation on a signal, spectrum, spectrogram or filter (operators, slicing, padding, shifting, transforms, convolution, merging, concatenation, evaluation, cutting out harmonics) changes the data, labels or parameters of the objects and arrays it is applied to. Every container can therefore be shared freely between computations.",
  ["inputs","histories"],"all operations of the public API on all operands",
  "Tests compare results and rarely look at the operands again; in-place arithmetic on a view or on a cached array shows up only for particular shapes, offsets or modes.",
  [SIG,SPM,SGR,FI,"sumpf/_internal/_convolution.py","sumpf/_blocks/_merge.py","sumpf/_blocks/_concatenate.py"],[("result arrays are freshly allocated","sumpf/_internal/_functions.py:allocate_array"),("out= arguments refer to result arrays only",SIG)])
p("C06","Padding, shifting and reversing move samples to exactly the right positions",
  "Padding or cropping keeps the leading samples (or frequency bins) at their positions and fills the rest with the given value; shifting by any number of samples delays the data by exactly that amount in every mode, so that the offset mode changes only the offset, the crop mode keeps the length and fills with zeros, the pad mode keeps all samples and fills with zeros, and the cyclic mode rotates. The cyclic mode is specified for shifts by at most the length. Reversing a signal reverses the order of its samples, and doing so twice restores the original including its offset; channel count, sampling rate, resolution and labels are always kept.",
  ["inputs"],"all containers of any size and offset, all target lengths, all shifts (positive, negative, zero, also larger than the length), all modes",
  "Tests use a few lengths and shifts; off-by-one errors at shift = length, empty data or negative shifts are invisible to them.",
  [SIG,SPM,SGR,"sumpf/_internal/_enums.py"],[("padding",SIG+":pad"),("shift modes",SIG+":shift"),("time reversal",SIG+":__reversed__")])
p("C07","Slicing selects exactly the requested channels, bins and samples",
  "Indexing a signal, spectrum or spectrogram with valid integers (from -n to n-1), fractions between -1.0 and 1.0, slices (with any start, stop and step >= 1, negative and omitted bounds included) or tuples of these yields exactly the data and labels that the equivalent array slices select, where a fraction f of an axis with n elements stands for the index round(f*(n-1)) or, as a bound of a slice, for round(f*n). For time data the offset of the result is the offset of the original plus the index of the first selected sample, so that sliced samples stay at their point in time.",
  ["inputs"],"all containers of any size and offset, all integer and fractional indices and slices per axis",
  "Tests check a few hand-written slices; the mapping from keys to data, labels and offset must be right for every sign, range and combination of indices.",
  [SIG,SPM,SGR,"sumpf/_internal/_indexing.py"],[("key conversion","sumpf/_internal/_indexing.py:key_to_slices, index"),("offset of slices",SIG+":__getitem__")])
p("C08","Convolution and correlation compute the right sums at the right points in time",
  "For any two real-valued, non-empty signals the convolution and correlation in each of their modes yield, for every output sample, exactly the sum of products that defines the linear (or, in the SPECTRUM mode, circular with the next even number of samples as period) convolution or correlation at that point in time, with the result's length and offset chosen such that sample positions are right for all input offsets. The modes agree with each other wherever they overlap, single-channel operands are applied to every channel of the other operand (otherwise channels are paired by index), arrays behave like signals with offset zero, and numbers scale the signal.",
  ["inputs"],"all pairs of signals of any non-zero length, offset and channel count, all modes",
  "Tests compare a few signals with NumPy's functions; the offsets and the cropping depend on which operand is longer, on parity and on the mode, and must be right for all combinations.",
  ["sumpf/_internal/_convolution.py",SIG],[("modes","sumpf/_internal/_convolution.py"),("dispatch by operand type",SIG+":convolve, correlate, __convolve_with_array")])
p("C09","Fourier transforms keep shape, resolution, delay and round-trip structure",
  "The spectrum of a signal has half its length plus one bins (rounded down), a resolution of the sampling rate divided by the length and, in each bin, the discrete Fourier transform of the channel multiplied with the phase shift of the signal's offset; the inverse transform of a spectrum has twice its length minus two samples, the matching sampling rate and offset zero. Transforming any even-length signal without offset forth and back restores its samples, sampling rate and labels, and empty signals or spectrums are handled without failing. Block-wise transforms add the delayed transforms of all windowed blocks (with padding, those that reach over the ends of the signal, too), and short time transforms hold each block's normalised transform at its point in time, from which their inverse restores the signal.",
  ["inputs"],"all signals and spectrums with any channel count, length, offset and sampling rate",
  "Tests use a few lengths; parity, empty data, and offsets interact with the bin count, the resolution and the phase compensation for every length.",
  [SIG,SPM],[("transform",SIG+":__full_fourier_transform"),("inverse transform",SPM+":inverse_fourier_transform")])
p("C10","Merging keeps every channel exactly once, in order, with aligned data",
  "Merging any number of signals, spectrums, spectrograms or filters yields a data set with every channel and label of every input exactly once, ordered either input after input or channel index after channel index, with each channel's data at its original point in time (or frequency bin) and zeros elsewhere. Parameters are taken from the first input; adding, replacing and removing inputs gives the same result as merging the final list of inputs from scratch.",
  ["inputs","histories"],"all lists of data sets with any numbers of channels, lengths and offsets, both modes, all sequences of add/replace/remove",
  "Tests merge two or three fixed inputs; the ordering must be a bijection for every combination of channel counts (including differing ones) and the alignment right for all offsets.",
  ["sumpf/_blocks/_merge.py"],[("index order","sumpf/_blocks/_merge.py:Merge.__indices"),("merging functions","sumpf/_blocks/_merge.py:Merge.__merge_signals ...")])
p("C11","Concatenation appends data sets seamlessly and sums overlaps",
  "Concatenating any number of signals or spectrograms appends each data set at the end of the preceding one, moved by its own offset, and adds the samples wherever data sets overlap because of negative offsets; gaps are zero and the offset of the result accounts for the first data set. The result has as many channels as the largest input (missing channels are zero) and the sampling rate or resolution of the first one; adding, replacing and removing inputs gives the same result as concatenating the final list of inputs from scratch.",
  ["inputs","histories"],"all lists of signals or spectrograms with any channel counts, lengths and offsets, all sequences of add/replace/remove",
  "Tests concatenate a few fixed signals; negative and positive offsets that reach before the first or beyond the last data set, and differing channel counts combine in unboundedly many ways.",
  ["sumpf/_blocks/_concatenate.py"],[("positions","sumpf/_blocks/_concatenate.py:Concatenate.__concatenate_signals ...")])
p("C12","Filter terms evaluate like the function they denote, under every operator",
  "For every filter term that is built from constants, polynomials of s, exponential functions of s, absolute values, negatives, sums, differences, products and quotients, by the terms' factories or by the operators +, -, *, /, negation, absolute value and inversion, the evaluated transfer function at every frequency equals the same operation applied to the evaluated operands, wherever none of the divisors is zero; all simplifications that are performed while combining terms preserve this, whatever the operands are (also zero, constant or equal to each other). A low-pass to high-pass transform evaluates the transformed term at 1/s instead of s (for all frequencies but zero), and transforming a term twice restores it. The same holds for operators between a filter and a number on either side.",
  ["inputs","programs"],"all expressions over filter terms, all coefficients, all frequencies, with and without low-pass/high-pass transforms",
  "Tests evaluate a few expressions at a few frequencies; each simplification rule must preserve the value for all coefficients (also empty or zero ones) and all frequencies.",
  [T+"_base.py",T+"_binary.py",T+"_primitive.py",T+"_unary.py","sumpf/_data/_filters/_base/_s.py",FI],[("simplifying factories",T+"_binary.py"),("evaluation",T+"_primitive.py"),("frequency variable","sumpf/_data/_filters/_base/_s.py")])
p("C13","Filters combine and apply channel-wise with consistent broadcasting",
  "Combining two filters by +, -, * or / yields a filter whose channel c at every frequency is the operation of the operands' channels c, where a single-channel operand is applied to every channel of the other, and other combinations of different channel counts raise an error; negation, absolute value, inversion and indexing act on each channel separately and keep its label. Evaluating a filter at a frequency, at a sequence of frequencies or as a spectrum gives the same values at the same frequencies for each channel, regardless of the other channels and the other frequencies (a channel with a low-pass to high-pass transform is zero at 0 Hz). Applying a filter to a spectrum, spectrogram or signal multiplies each bin with the filter's value at the bin's frequency.",
  ["inputs","configurations"],"all filters with any number of channels, all frequencies, lengths and resolutions",
  "Tests use a few one- and two-channel filters; broadcasting, channel independence and the agreement of the three evaluation paths must hold for every channel count and resolution.",
  [FI],[("broadcasting",FI+":__algebra_function"),("evaluation",FI+":spectrum, __call__")])
p("C14","Filter classes realise the designs, after which they are named",
  "For every cutoff frequency and order, a Butterworth, Bessel or Chebyshev filter of the first or second kind has at every positive frequency the transfer function of the stable analog prototype of its name, scaled to the cutoff frequency, and the highpass filter has that of the prototype at the inverse frequency ratio: squared magnitudes 1/(1+x^2n), G/(1+e^2*T_n(x)^2) with the ripple given in decibels above (even orders, G=1+e^2) or below (odd orders, G=1) one, and 1/(1+(1/e^2)/T_n(1/x)^2) with the stop band attenuation in decibels, respectively the reverse Bessel polynomial that is one at zero, with x as the ratio of frequency and cutoff frequency. The sign of the ripple is ignored, and without ripple the first kind is a Butterworth filter. The A, B, C, D and U weighting filters have the poles and zeros of their standards and unit gain at 1kHz, a delay filter is exp(-s*delay) and the derivative filter is s. The filters report the cutoff frequency, order, ripple and type, with which they were created.",
  ["inputs","configurations"],"all cutoff frequencies and all positive frequencies, orders, ripples, lowpass and highpass filters",
  "Tests compare a few sampled frequencies with tolerances; the pole positions must be right for every order and parameter, at every frequency, for both filter types.",
  ["sumpf/_data/_filters/_butterworth.py","sumpf/_data/_filters/_bessel.py","sumpf/_data/_filters/_chebyshev.py","sumpf/_data/_filters/_weighting.py","sumpf/_data/_filters/_delay.py","sumpf/_data/_filters/_derivative.py","sumpf/_data/_filters/_base/_iir.py","sumpf/_data/_filters/_base/_functions.py"],
  [("pole placement","sumpf/_data/_filters/_butterworth.py:butterworth"),("frequency scaling","sumpf/_data/_filters/_base/_functions.py:frequency_scaling"),("weighting terms","sumpf/_data/_filters/_weighting.py:_transfer_function")])
p("C15","Interpolation hits its supporting points and picks the right interval",
  "For any strictly increasing supporting points and every interpolation and extrapolation mode, the interpolated function returns the supporting value at every supporting point, follows the mode's formula within the interval of the two enclosing points (zero, one, a straight line on the mode's linear or logarithmic scales, or the value of the nearest point for the stairs modes), and continues outside of the points as the extrapolation mode prescribes (zero, one, the straight line through the two outermost points, or the outermost value for the stairs modes; beyond a single point: its value). The logarithmic modes are specified for positive points or values, respectively. The result has the shape of the requested points and does not depend on their order.",
  ["inputs"],"all increasing lists of supporting points (one or more), all values, all evaluation points inside and outside, all modes",
  "Tests interpolate between two or three points; the interval search and the boundary handling must be right for every position of the evaluation point.",
  ["sumpf/_internal/_interpolation.py",T+"_primitive.py","sumpf/_data/_filters/_bands.py"],[("interpolation functions","sumpf/_internal/_interpolation.py"),("bands filter",T+"_primitive.py:Bands")])
p("C16","Window functions and fades have the right shape, symmetry and range",
  "Every window signal has the requested number of samples in one channel and follows its defining function at every sample for symmetric and periodic windows of every length (for Slepian windows: as long as their bandwidth exists for the length); symmetric windows are mirror-symmetric, periodic windows are the symmetric window of one more sample without its last one. With a plateau of p samples, the samples in the middle are one, and the (length-p)//2 samples before and after them are the halves of a shorter window. A fade in is zero before its interval, the first half of the given function in it and one after it; a fade out is one before its interval, the second half of the function in it and zero after it. A signal with both is their product, if the fade in starts before the fade out, and otherwise their sum.",
  ["inputs","configurations"],"all window lengths (including 0 and 1), plateaus and parameters, symmetric and periodic, all fade intervals within the signal, given by integers or fractions, also counted from the end, all functions for the slope",
  "Tests check a few lengths; formulas, denominators and interval borders must be right for every length and position.",
  ["sumpf/_data/_signals/_windows.py","sumpf/_data/_signals/_fade.py"],[("window formulas","sumpf/_data/_signals/_windows.py"),("fade regions","sumpf/_data/_signals/_fade.py")])
p("C17","Levels, statistics and decay curves account for every sample as defined",
  "The level of a signal is the root of the mean of its squared samples, its mean, variance, standard deviation, skewness and (excess) kurtosis are the moments of its samples, for each channel or, as a single value, over the samples of all channels. The level of a spectrum is that of its inverse Fourier transform, where the first and the last bin count once and all others twice. The level versus time is at each sample the level of the samples in the integration interval that is placed symmetrically around it, where the outermost samples count with the fraction of them that is covered, and what lies beyond the signal counts as silence, if padding is requested, or is left out of the interval otherwise; integration times of up to one sample give the absolute samples. The energy decay curve holds for each sample the sum of the squared samples from that one on, the reverberation time is that of the least squares line through its decibel values in the segment, and the decay model is this line. Signals that are computed keep the sampling rate, offset and labels.",
  ["inputs","configurations"],"all signals and spectrums of any shape with at least one channel and one sample, all integration times, segments and modes",
  "Tests use a few waveforms, and the one for the level versus time samples only integration times below one sample; weights, borders and counts must be right for every length, time and position.",
  [SIG,SPM,"sumpf/_data/_signals/_energy_decay.py"],[("level versus time",SIG+":level_vs_time"),("statistics",SIG+":level, mean, variance"),("spectrum level",SPM+":level"),("decay","sumpf/_data/_signals/_energy_decay.py")])
p("C18","Saving and loading restores data sets and filters",
  "Loading a file that was written by saving a signal, spectrum, spectrogram or filter yields a data set with the same number of channels, samples or bins in the same order, equal up to the precision of the file format, and with those parameters and labels that the format stores. Lossless formats restore everything exactly, for every channel count, length, offset and parameter, and for every filter term.",
  ["inputs","configurations"],"all data sets and filters, all available file formats",
  "Tests save and load a few fixed objects; the mapping must be invertible for every shape, parameter, value and filter-term structure.",
  ["sumpf/_internal/_persistence/_filter_writers.py","sumpf/_internal/_persistence/_filter_readers.py","sumpf/_internal/_persistence/_signal_writers.py","sumpf/_internal/_persistence/_signal_readers.py","sumpf/_internal/_persistence/_functions.py"],
  [("writers","sumpf/_internal/_persistence/*_writers.py"),("readers","sumpf/_internal/_persistence/*_readers.py"),("term serialisation",T+"*.py:as_dict")])
p("C19","Equality is faithful and consistent with hashing",
  "Two data containers or filters compare equal exactly if they are of the same kind and all of their data, parameters and labels are equal, and not-equal is always the negation of equal; the comparison is reflexive and symmetric and never raises, whatever the shapes or types of the operands (numbers that are not a number are excluded). Data containers that are equal have equal hashes.",
  ["inputs"],"all pairs of containers of any shapes, parameters, labels and types, all pairs of filters and filter terms",
  "Tests compare a few variations; faithfulness quantifies over every single sample, parameter and label, and over all shape mismatches.",
  [SD,SIG,SPM,SGR,FI,T+"_primitive.py",T+"_binary.py"],[("comparison",SD+":__eq__"),("hash",SD+":__hash__"),("term comparison",T+"_primitive.py")])
p("C20","Real-time I/O delivers every sample once, in order, without gaps",
  "While a signal is played back and recorded block by block by the audio server, every sample of the signal is sent exactly once and in order to the output with the same index, the remainder of the last block is silence, and the recorded signal consists of the captured blocks in order without loss or duplication, cropped to the length of the played signal and with its offset, for every sequence of block sizes, signal length, offset and number of ports. After the last sample, the finished state is signalled in the next block at the latest, not earlier than the last sample has been sent, and all further blocks, as well as those before the start, produce silence. A second recording starts from the beginning and does not change the result of the first one. An interruption that the server reports is counted and described by the range of samples of the interrupted block and its duration in seconds.",
  ["inputs","histories","schedules"],"all block sizes, signal lengths, offsets, numbers of ports, and all sequences of server callbacks",
  "The tests need a running audio server and are skipped here; block boundaries relative to the signal's start and end vary with every block size and length.",
  ["sumpf/_blocks/_jack.py"],[("process callback","sumpf/_blocks/_jack.py:Jack")])
p("C21","Generated signals and spectrums follow their definition at every sample",
  "Every generated signal, spectrum or spectrogram (constants, sine and square waves, linear and exponential sweeps and their inverses, maximum length sequences, Rudin-Shapiro noise spectrums and noise signals) has the requested length, sampling rate or resolution and channel count, and every sample or bin has the value that the generator's definition prescribes for the given parameters: a wave or sweep is the periodic function of the integral of its instantaneous frequency, a maximum length sequence has the values -1 and 1 and repeats after 2**bits-1 samples, where a missing number of bits is the smallest one with a sufficiently long sequence, a Rudin-Shapiro spectrum follows the Rudin-Shapiro sequence of signs inside its band and is zero outside, and a noise signal consists of the consecutive draws of NumPy's random generator for the given seed and parameters of the distribution. Properties that a generator reports about itself, such as the instantaneous frequency at a point in time, the excited frequency range, the number of periods or the length of a sequence, agree with the generated samples. The impulse response of a harmonic, that an exponential sweep cuts out of a measured impulse response, starts exactly log(order) times the sweep rate before the linear one, has the requested length and keeps every sample of that part. (Preconditions: lengths of at least one for waves and sweeps, non-empty intervals, positive frequencies and rates, and valid parameters of the distributions.)",
  ["inputs","configurations"],"all lengths, sampling rates, frequencies, phases, intervals, register sizes from 2 to 32 bits, and parameters of distributions",
  "Tests check some samples of a few configurations; the definitions must hold for every length and every sample index.",
  ["sumpf/_data/_signals/_constant.py","sumpf/_data/_signals/_waves.py","sumpf/_data/_signals/_sweep.py","sumpf/_data/_signals/_mls.py","sumpf/_data/_signals/_noise.py","sumpf/_data/_spectrums/_rudinshapiro.py","sumpf/_data/_spectrums/_constant.py","sumpf/_data/_spectrograms/_constant.py"],
  [("generators","sumpf/_data/_signals/*.py")])
open("/verif/properties.jsonl","w").write("".join(json.dumps(x)+"\n" for x in P))
