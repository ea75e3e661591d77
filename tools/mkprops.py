#!/usr/bin/env python3
"""Writes properties.jsonl (one place to edit the property texts)."""
import json, os
P = []
def p(id, title, statement, over, qtext, why, files, mech, **kw):
    P.append({"id": id, "title": title, "statement": statement,
              "quantifier": {"over": over, "text": qtext}, "why_tests_cant": why,
              "anchors": dict(files=files, mechanism=[{"name": n, "where": w} for n, w in mech], **kw)})

p("C01", "Asynchronous tasks: each request is performed exactly once, and awaited",
  "For every interleaving of callers and worker threads, spurious condition wakeups included, each request made of an AsynchronousTask is performed exactly once by its worker, in request order and never concurrently with itself, and awaiting it returns only after that performance has completed. "
  "The request/await protocol never deadlocks or loses a wakeup, whatever the number of tasks running in parallel. "
  "Destroying a task that has nothing outstanding always ends its worker thread, and nothing is performed without a request.",
  ["schedules", "histories"], "all thread interleavings at lock/condition granularity, all placements of spurious wakeups, all request/await histories of one or several tasks",
  "A test samples one schedule per run of the operating system scheduler; lost or early wakeups need a particular interleaving.",
  ["thread/AsynchronousTask.h", "thread/Thread.cpp", "thread/Thread.h"],
  [("request hand-off under m_done then m_todo", "thread/AsynchronousTask.h: startTask"), ("completion wait", "thread/AsynchronousTask.h: awaitTask"),
   ("worker loop and shutdown", "thread/AsynchronousTask.h: run, ~AsynchronousTask")])

p("C02", "Thread: run() executes once per start and wait() returns only after it ended",
  "Starting a Thread executes its run() exactly once, in a thread other than the caller's, and id() names that thread. "
  "wait() and destruction return only after run() has ended; wait() on a thread that was never started or was already waited for returns at once, and the object may be started again after a wait.",
  ["schedules", "histories"], "all interleavings of the caller and the started thread over all call histories start/wait/id/destroy",
  "Premature return from wait shows only when the scheduler delays the started thread; double joins are undefined behaviour that usually goes unnoticed.",
  ["thread/Thread.cpp", "thread/Thread.h"],
  [("start/join bookkeeping (m_extant)", "thread/Thread.cpp: start, wait, ~Thread"), ("trampoline", "thread/Thread.cpp: staticRun")])

p("C03", "Mutex: mutual exclusion, truthful trylock, scoped MutexLocker",
  "Between a successful lock or trylock of a Mutex and the matching unlock no other thread's lock or trylock of it succeeds. "
  "trylock never blocks and returns true exactly when it acquired the mutex; unlock makes the mutex available so that a waiter gets it, and a MutexLocker holds its mutex exactly for its own lifetime and does nothing when given none. "
  "A thread's unlock of a mutex it does not hold never releases another thread's hold.",
  ["schedules", "histories"], "all interleavings of threads locking, trying, unlocking and scoping",
  "Mutual exclusion violations need a particular interleaving; the bookkeeping fields are written outside the lock.",
  ["thread/Thread.cpp", "thread/Thread.h"],
  [("lock ownership bookkeeping", "thread/Thread.cpp: Mutex::lock, unlock, trylock"), ("RAII lock", "thread/Thread.cpp: MutexLocker")])

p("C04", "Condition: atomic release-and-wait, no lost signals, honest timeouts",
  "Condition::wait releases the condition's lock atomically with starting to wait, returns with the lock held again, and a signal sent under the lock after that point ends it: no signal is lost and no two threads ever hold the lock together. "
  "A wait with a positive timeout that receives no signal returns no earlier than that many microseconds after the call, whatever the time of day, and does return once it has passed; a wait without a timeout never returns merely because time passes. "
  "Unlocking a condition that is not locked has no effect.",
  ["schedules", "inputs"], "all interleavings of waiters and signallers, all clock phases within a second and all timeouts",
  "Lost signals need a particular interleaving; deadline arithmetic goes wrong only at particular clock phases.",
  ["thread/Thread.cpp", "thread/Thread.h"],
  [("wait with absolute deadline arithmetic", "thread/Thread.cpp: Condition::wait"), ("lock/unlock bookkeeping", "thread/Thread.cpp: Condition::lock, unlock, signal")])

p("C05", "BlockAllocator: live blocks never overlap and keep their contents",
  "Every pointer returned by BlockAllocator::allocate addresses a block of at least the requested element size that overlaps no other live block, and the contents of a live block are preserved across any sequence of other allocations and deallocations, whatever their number and order. "
  "The memory held never grows beyond its earlier peak while a freed block is still available for reuse; deallocating a null pointer does nothing; different allocators are independent.",
  ["histories"], "all histories of allocate/deallocate of any length, order and element size",
  "Free list corruption shows only after particular interleavings of full, partly full and emptied blocks.",
  ["thread/BlockAllocator.h"],
  [("per-block free list threaded through freed units", "thread/BlockAllocator.h: Block::allocate, Block::deallocate"), ("list of blocks with room", "thread/BlockAllocator.h: allocate, deallocate")])

p("S01", "Filter computes its difference equation exactly, however the input is chunked",
  "A Filter constructed from coefficients a, b produces y[n] = sum b[k] x[n-k] - sum_{k>=1} a[k] y[n-k], with zero history at construction and after reset, for every order including zero and for FIR filters (empty a). "
  "The output does not depend on how the input is divided into process calls (empty ones included); getOrder is the number of b coefficients less one.",
  ["inputs", "histories"], "all coefficient sets, inputs, stream lengths and divisions into calls, and resets in between",
  "State carry-over bugs depend on the chunking and on the point at which the internal history buffers wrap.",
  ["dsp/signalconditioning/Filter.cpp", "dsp/signalconditioning/Filter.h"],
  [("circular-ish history buffers with offsets", "dsp/signalconditioning/Filter.cpp: process"), ("reset", "dsp/signalconditioning/Filter.cpp: reset")])

p("S02", "FiltFilt is a stateless zero-phase filter over the whole input",
  "FiltFilt::process returns, for every input length, the result of filtering forwards and then backwards the input extended at both ends by odd reflection (2*end - mirrored sample) over three times the filter order (zero where the input is too short to mirror), trimmed to the input's extent. "
  "The result depends only on the coefficients and this call's input, never on earlier calls, and exactly that many samples are written.",
  ["inputs", "histories"], "all inputs and lengths (also shorter than the extension), all coefficient sets, any earlier calls on the same object",
  "The boundary extension and the state carried between passes and calls matter only for particular lengths and call histories.",
  ["dsp/signalconditioning/FiltFilt.cpp", "dsp/signalconditioning/FiltFilt.h", "dsp/signalconditioning/Filter.cpp"],
  [("reflection extension and two passes", "dsp/signalconditioning/FiltFilt.cpp: process")])

p("S03", "Streaming Resampler: sample counts, continuity and latency for any chunking",
  "For any pair of rates and any division of the input into process calls (empty ones included) the concatenated output is the same sequence, and after n input samples it holds exactly ceil(n * targetRate / sourceRate) samples or one more, no call returning more than its own input's share rounded up. "
  "Output sample k, after the delay reported by getLatency, corresponds to time k/targetRate of the input: a constant signal comes out constant and an impulse comes out centred on its own time.",
  ["inputs", "histories"], "all rate pairs, stream lengths and chunkings",
  "Buffer refill and phase bookkeeping accumulate over long streams and depend on the chunk boundaries and on the ratio.",
  ["dsp/rateconversion/Resampler.cpp", "dsp/rateconversion/Resampler.h"],
  [("phase table and buffer refill", "dsp/rateconversion/Resampler.cpp: process, reconstructOne"), ("initialisation", "dsp/rateconversion/Resampler.cpp: initialise")])

p("S04", "One-shot resample: exact length and time alignment",
  "Resampler::resample of n samples returns exactly ceil(n * targetRate / sourceRate) samples, sample k corresponding to input time k/targetRate with no residual delay, for every pair of rates. "
  "The result depends only on the arguments of that call, and resampling at equal rates reproduces the input.",
  ["inputs"], "all rate pairs, lengths and signals",
  "Length and alignment arithmetic goes wrong only for particular ratios and lengths.",
  ["dsp/rateconversion/Resampler.cpp", "dsp/rateconversion/Resampler.h"],
  [("latency trimming and padding", "dsp/rateconversion/Resampler.cpp: resample")])

p("S05", "Decimators: block-wise decimation equals decimation of the whole stream",
  "Decimator and DecimatorB turn each block of the constructed length into exactly length/factor samples, and the concatenated output equals that of one long block over the whole stream: state carries over exactly across block boundaries. "
  "A steady input settles to itself (unity gain at DC), Decimator's resetFilter restores the freshly constructed behaviour, in-place processing of a Decimator agrees with separate buffers, and the single- and double-precision forms agree. "
  "The supported factors are exactly those reported by getHighestSupportedFactor and its smaller powers of two for Decimator, and all powers of two for DecimatorB.",
  ["inputs", "histories"], "all inputs, block lengths, supported factors, block sequences and resets",
  "State carried between blocks and stages can be wrong for only some factors and block boundaries; no test constructs a decimator.",
  ["dsp/rateconversion/Decimator.cpp", "dsp/rateconversion/Decimator.h", "dsp/rateconversion/DecimatorB.cpp", "dsp/rateconversion/DecimatorB.h"],
  [("anti-alias IIR state", "dsp/rateconversion/Decimator.cpp: doAntiAlias, resetFilter"), ("cascade of halvings", "dsp/rateconversion/DecimatorB.cpp: doProcess")])

p("S06", "Framer tiles its source: every frame, in order, zero padded at the end only",
  "After configure and setSource, successive getFrame calls return the frameLength samples of the source beginning at 0, hop, 2*hop, ..., with zeros where the source has ended, and getMaxNoFrames is ceil(sourceLength/hop). "
  "Nothing outside the given source and the given frame buffer is ever read or written, even when more frames are requested than exist, and resetCounters restarts from the beginning.",
  ["inputs", "histories"], "all source lengths, frame lengths, hops and sequences of calls",
  "The end-of-source cases depend on the remainders of the lengths; no test uses Framer.",
  ["dsp/signalconditioning/Framer.cpp", "dsp/signalconditioning/Framer.h"],
  [("end-of-source handling", "dsp/signalconditioning/Framer.cpp: getFrame"), ("frame count", "dsp/signalconditioning/Framer.cpp: setSource")])

p("S07", "MedianFilter always returns the order statistic of the last N values",
  "After any sequence of pushes, MedianFilter::get returns the element of rank floor(N * percentile / 100) (capped at N-1) among the last N values pushed, values before the first push (or after a reset) counting as zero, for every window size and percentile. "
  "The static filter gives for each position the same statistic of the window centred on it, zero beyond the ends, leaving its input untouched, and NaN input counts as zero while infinities order as usual.",
  ["inputs", "histories"], "all value sequences incl. duplicates, infinities and NaN, all window sizes, percentiles, and resets",
  "Errors in sorted-window maintenance depend on the pattern of duplicates and on long histories.",
  ["maths/MedianFilter.h"],
  [("sorted window maintenance", "maths/MedianFilter.h: push, put, drop"), ("static filter", "maths/MedianFilter.h: filter")])

p("S08", "DFProcess subtracts a moving median taken over the available window only",
  "DFProcess normalises, zero-phase smooths and median-detrends a non-silent detection function of any length: sample p has subtracted from it the median of the smoothed samples from p-winPre to p+winPost that exist, and is floored at zero when so configured. "
  "The result depends only on the configuration and this call's input, which is left unmodified, and never on memory outside the input, for functions shorter than the window too.",
  ["inputs", "histories"], "all inputs, lengths and window sizes and earlier calls",
  "The clipped windows at both ends matter only for particular lengths and window sizes; no test uses DFProcess.",
  ["dsp/signalconditioning/DFProcess.cpp", "dsp/signalconditioning/DFProcess.h"],
  [("median detrend in three ranges", "dsp/signalconditioning/DFProcess.cpp: medianFilter"), ("normalisation", "dsp/signalconditioning/DFProcess.cpp: process, removeDCNormalize")])

p("O01", "PeakPicking reports exactly the qualifying local maxima, in order",
  "PeakPicking::process replaces the given detection function by its smoothed version and reports the increasing indices of exactly those samples that are strictly greater than both neighbours, positive, at least two samples from either end, and whose quadratic fit over the five surrounding samples is peaked or high enough for the configured thresholds. "
  "Inputs of fewer than four samples are left alone and yield no onsets, the onsets are appended to the given list without changing what it held, and nothing outside the buffer is touched.",
  ["inputs", "histories"], "all detection functions, lengths, thresholds",
  "Edge handling and ties appear only in particular shapes of the function; no test uses PeakPicking.",
  ["dsp/onsets/PeakPicking.cpp", "dsp/onsets/PeakPicking.h", "maths/Polyfit.h"],
  [("peak rule and quadratic test", "dsp/onsets/PeakPicking.cpp: quadEval"), ("smoothing in place", "dsp/onsets/PeakPicking.cpp: process")])

p("O02", "DetectionFunction: value is a function of this frame and the last few only",
  "Every detection function type yields for each frame a finite value determined by the current frame and its fixed, short history: high-frequency content and an unwhitened spectrum depend on this frame alone, spectral difference and broadband on one earlier frame, phase deviation and complex domain on two, and zero history at construction. "
  "Time-domain and frequency-domain entry points agree on the same frame, repeating an identical frame makes the spectral difference and broadband values zero, and scaling conventions (magnitude proportionality, counts of rising bins) hold; only adaptive whitening reaches further back.",
  ["histories", "inputs"], "all frame sequences, types, frame lengths, thresholds and whitening settings",
  "Off-by-one history updates change only particular sequences; no test constructs a DetectionFunction.",
  ["dsp/onsets/DetectionFunction.cpp", "dsp/onsets/DetectionFunction.h", "dsp/phasevocoder/PhaseVocoder.cpp"],
  [("history buffers", "dsp/onsets/DetectionFunction.cpp: specDiff, phaseDev, complexSD, broadband"), ("whitening", "dsp/onsets/DetectionFunction.cpp: whiten")])

p("O03", "PhaseVocoder: unwrapped phase tracks measured phase and resets cleanly",
  "For every frame and bin PhaseVocoder reports the magnitude and wrapped phase of the frame's spectrum, and an unwrapped phase that equals the wrapped one modulo 2 pi and differs from the previous unwrapped phase by the expected hop advance for the bin to within pi. "
  "The sequence depends on the frames since construction or reset only: after reset it repeats exactly what a fresh object gives, and time-domain and frequency-domain entry agree.",
  ["histories", "inputs"], "all frame sequences, frame sizes, hops and resets",
  "Unwrapping errors accumulate over frames and appear at particular phase advances only.",
  ["dsp/phasevocoder/PhaseVocoder.cpp", "dsp/phasevocoder/PhaseVocoder.h", "maths/MathUtilities.cpp"],
  [("unwrapping recurrence", "dsp/phasevocoder/PhaseVocoder.cpp: unwrapPhases"), ("reset", "dsp/phasevocoder/PhaseVocoder.cpp: reset")])

p("R01", "Beat periods are valid lags, held per analysis step, with matching tempi",
  "TempoTrackV2::calculateBeatPeriod gives every detection function sample a beat period that is constant within each analysis step and is a whole lag in the tracked range, and a tempo of exactly 60*rate/(increment*period) for each. "
  "The result depends only on the arguments, inputs too short to analyse leave the outputs as they were, and the chosen periods are a most probable path through the per-step scores.",
  ["inputs", "histories"], "all detection functions, lengths, rates, increments, input tempo settings",
  "Viterbi and windowing errors appear only for particular lengths and signals; no test uses TempoTrackV2.",
  ["dsp/tempotracking/TempoTrackV2.cpp", "dsp/tempotracking/TempoTrackV2.h"],
  [("Viterbi decoding over lags", "dsp/tempotracking/TempoTrackV2.cpp: viterbi_decode"), ("framing by step", "dsp/tempotracking/TempoTrackV2.cpp: calculateBeatPeriod")])

p("R02", "Beats are a strictly increasing optimal path through the detection function",
  "TempoTrackV2::calculateBeats returns strictly increasing beat positions inside the detection function whose successive gaps lie within half to double the local beat period, forming a path that maximises the documented cumulative score (alpha-weighted transition plus detection function value) back from the best final beat. "
  "The result depends only on the arguments, and no memory outside the given vectors is read for any lengths, periods and settings.",
  ["inputs"], "all detection functions, period sequences, alpha and tightness values",
  "Dynamic-programming mistakes surface only on particular score landscapes; no test uses it.",
  ["dsp/tempotracking/TempoTrackV2.cpp", "dsp/tempotracking/TempoTrackV2.h"],
  [("dynamic programming and backtrace", "dsp/tempotracking/TempoTrackV2.cpp: calculateBeats")])

p("R03", "TempoTrack yields ordered beats within the analysed signal, call after call",
  "TempoTrack::process returns strictly increasing beat positions inside the analysis windows and one tempo per window, for every detection function length and winPre/winPost setting: within each window the beats are equally spaced, at the best aligned phase, by a period that agrees with the tempo reported. "
  "A further call on the same object returns what a fresh object would, separate objects given the same data return the same beats, and no call touches memory outside its data.",
  ["inputs", "histories"], "all detection functions, lengths, parameters and repeated calls",
  "The frame bookkeeping survives between calls, which no test makes.",
  ["dsp/tempotracking/TempoTrack.cpp", "dsp/tempotracking/TempoTrack.h", "dsp/signalconditioning/Framer.cpp"],
  [("window loop over the framer", "dsp/tempotracking/TempoTrack.cpp: process"), ("beat placement", "dsp/tempotracking/TempoTrack.cpp: beatPredict, phaseMM")])

p("R04", "DownBeat: downbeats are every n-th beat, at the strongest spectral change",
  "DownBeat::findDownBeats returns indices into the given beats that form an arithmetic progression whose step is the configured beats per bar, starting at the phase with the greatest mean spectral difference, using difference values, one per interior beat interval, that getBeatSD reports. "
  "Audio pushed in blocks is buffered losslessly whatever the number of blocks, buffered length is the audio length divided by the decimation factor, and resetAudioBuffer discards it all.",
  ["inputs", "histories"], "all beat sequences, audio block sequences, beats per bar, resets",
  "Buffer growth and the choice of phase depend on block counts and beat counts; no test uses DownBeat.",
  ["dsp/tempotracking/DownBeat.cpp", "dsp/tempotracking/DownBeat.h"],
  [("audio buffer growth", "dsp/tempotracking/DownBeat.cpp: pushAudioBlock"), ("bar phase choice", "dsp/tempotracking/DownBeat.cpp: findDownBeats")])

p("K01", "GetKeyMode: reported key is the running median of the best-correlating profile",
  "For every sequence of audio blocks GetKeyMode::process returns a key from 1 to 24, the median of the most recent raw keys in its smoothing window, each raw key being the major or minor profile that correlates best with the mean chroma of the most recent blocks of its averaging window. "
  "Only the chroma of blocks inside those windows matters, and a new object with the same settings given the same blocks returns the same keys and strengths.",
  ["histories", "inputs"], "all block histories and window settings",
  "The circular buffers and the smoothing window only show faults after particular numbers of blocks.",
  ["dsp/keydetection/GetKeyMode.cpp", "dsp/keydetection/GetKeyMode.h"],
  [("chroma averaging ring", "dsp/keydetection/GetKeyMode.cpp: process"), ("median smoothing of keys", "dsp/keydetection/GetKeyMode.cpp: process")])

p("K02", "Chromagram and ConstantQ: frame-local, octave-folded, consistently normalised",
  "Each Chromagram frame depends only on the given block, its frame and hop sizes are the power of two covering the lowest note and an eighth of it, and chroma bin i is the sum over octaves of the constant-Q magnitudes of that pitch class, normalised as configured. "
  "Time-domain and frequency-domain entry agree, as do both forms of ConstantQ::process, ConstantQ is linear in its input, a tone at a bin's frequency is strongest in that bin, and every result stays within its buffers.",
  ["inputs", "configurations"], "all configurations and blocks",
  "Octave folding, kernel layout and normalisation depend on the configuration; tests use a few.",
  ["dsp/chromagram/Chromagram.cpp", "dsp/chromagram/ConstantQ.cpp"],
  [("octave folding and normalisation", "dsp/chromagram/Chromagram.cpp: process"), ("sparse kernel", "dsp/chromagram/ConstantQ.cpp: sparsekernel, process")])

p("K03", "Tonal change: centroids, smoothing and change measure follow the chroma history",
  "TonalEstimator maps a chroma vector to a six-dimensional tonal centroid that is linear in the normalised vector, so equal up to scale and rotating consistently with transposition. "
  "TCSGram keeps the added vectors in order, each at the time its position and the frame duration give (zero while none is set), and ChangeDetectionFunction gives one value per frame: the distance between the Gaussian-smoothed centroids either side of it, with nothing beyond the ends, so an unchanging harmony gives zero away from them.",
  ["inputs", "histories"], "all chroma sequences, smoothing widths and durations",
  "Window clipping at the ends and lookup off-by-ones show only on particular sequences; no test uses these classes.",
  ["dsp/tonal/TonalEstimator.cpp", "dsp/tonal/TCSgram.cpp", "dsp/tonal/ChangeDetectionFunction.cpp"],
  [("centroid projection", "dsp/tonal/TonalEstimator.cpp: transform2TCS"), ("Gaussian smoothing and difference", "dsp/tonal/ChangeDetectionFunction.cpp: process")])

p("G01", "Segmentation covers the track with adjoining, alternating segments",
  "ClusterMeltSegmenter turns any sequence of feature vectors into segments that tile the analysed time from zero to features*hop without gap or overlap, with boundaries on hop positions, different types on adjacent segments and types from a range no larger than the number of clusters. "
  "Silent, constant or very short input is handled without fault, and clear discards everything so that the object can be used anew.",
  ["inputs", "histories"], "all feature sequences and parameters, any earlier use of the object",
  "Segments depend on iterative clustering over the whole track; no test runs the segmenter.",
  ["dsp/segmentation/ClusterMeltSegmenter.cpp", "dsp/segmentation/cluster_segmenter.c", "dsp/segmentation/cluster_melt.c", "dsp/segmentation/Segmenter.cpp"],
  [("run-length to segments", "dsp/segmentation/ClusterMeltSegmenter.cpp: makeSegmentation"), ("histograms over windows", "dsp/segmentation/cluster_segmenter.c: create_histograms"), ("clustering with membership", "dsp/segmentation/cluster_melt.c: cluster_melt")])

p("G02", "HMM: decoded path is most probable and training keeps distributions valid",
  "viterbi_decode returns a state path of greatest probability under the model for every observation sequence. "
  "hmm_train leaves initial and transition probabilities as distributions (non-negative, rows summing to one) and does not decrease the likelihood it maximises beyond its own tolerance, and probabilities of state occupation computed on the way sum to one at each time.",
  ["inputs"], "all models and observation sequences",
  "Optimality over all paths is a universally quantified claim; no test uses hmm.",
  ["hmm/hmm.c", "hmm/hmm.h"],
  [("Viterbi decoding", "hmm/hmm.c: viterbi_decode"), ("Baum-Welch updates", "hmm/hmm.c: forward_backwards, baum_welch")])

p("F01", "Transforms follow the DFT and DCT conventions and invert each other",
  "FFT and FFTReal of any even size compute the unnormalised forward DFT with negative exponent; their inverse transforms undo it exactly up to rounding (FFTReal's using only the non-redundant half), and real input gives a conjugate-symmetric full spectrum. "
  "DCT computes the type-II cosine transform 2*sum x cos, its unitary form scaled to be orthonormal, and its inverses undo them for every size from one upwards. "
  "Results depend only on the arguments, whatever was transformed before by the same object, and null imaginary input means zero.",
  ["inputs", "histories"], "all sizes, inputs and earlier calls",
  "Tests sample a few sizes and signals; conventions must hold for all sizes and basis vectors.",
  ["dsp/transforms/FFT.cpp", "dsp/transforms/DCT.cpp", "dsp/transforms/FFT.h", "dsp/transforms/DCT.h"],
  [("scaling and half-spectrum packing", "dsp/transforms/FFT.cpp"), ("scaling of coefficients", "dsp/transforms/DCT.cpp")])

p("F02", "MFCC: frame-local cepstra from a contiguous triangular filter bank",
  "MFCC output for a frame depends on that frame and the configuration only, time-domain and frequency-domain entry agree, and the coefficients are cosine-transformed logarithms of triangular mel bands each peaking where its neighbours vanish. "
  "The number of coefficients is as configured (with or without the zeroth), scaling a frame shifts only the zeroth coefficient, and silence gives finite values.",
  ["inputs", "configurations"], "all configurations and frames",
  "Filter bank layout depends on rate and FFT size; no test uses MFCC.",
  ["dsp/mfcc/MFCC.cpp", "dsp/mfcc/MFCC.h"],
  [("filter bank construction", "dsp/mfcc/MFCC.cpp: MFCC"), ("cepstrum", "dsp/mfcc/MFCC.cpp: process")])

p("F03", "Windows: correct length, symmetry, and multiplication by cut and copy",
  "Every window type and size has values between zero and one (to rounding; the rectangular window is a constant one half), the periodic cosine windows equal their defining formulas and are symmetric about half their size, and cutting multiplies each sample by its window value whether in place or into another buffer. "
  "Kaiser windows are symmetric, never exceed one, peak at one in the middle of an odd length, and have the length their attenuation and transition demand; sinc windows are symmetric with unit peak and zeros at multiples of half the period.",
  ["inputs", "configurations"], "all types, sizes and parameters",
  "Tests check a few small sizes only.",
  ["base/Window.h", "base/KaiserWindow.cpp", "base/SincWindow.cpp"],
  [("window formulas", "base/Window.h: encache"), ("Kaiser and sinc", "base/KaiserWindow.cpp, base/SincWindow.cpp: init")])

p("D01", "Similarity measures: symmetric, bounded, zero on identity, defined on edge cases",
  "Cosine distance and symmetric Kullback-Leibler distances are zero for identical inputs, non-negative, symmetric where they claim to be and insensitive to scale where they claim to be; unlike-sized inputs are refused as documented. "
  "BeatSpectrum equals the sum of distances over each lag, and auto-correlation at each lag equals its defining normalised sum of products of the available samples.",
  ["inputs"], "all vectors, lengths and lags",
  "Metric axioms are universally quantified; no test uses these classes.",
  ["maths/CosineDistance.cpp", "maths/KLDivergence.cpp", "maths/Correlation.cpp", "dsp/rhythm/BeatSpectrum.cpp"],
  [("distance formulas", "maths/CosineDistance.cpp: distance; maths/KLDivergence.cpp: distance"), ("lag sums", "dsp/rhythm/BeatSpectrum.cpp: process; maths/Correlation.cpp: doAutoUnBiased")])

p("D02", "MathUtilities: helpers match their mathematical definitions on every input",
  "Power-of-two queries and rounding, gcd, factorial, modulus, rounding, extrema, sums, means, medians, alpha norms, circular shift, normalisation and phase-wrapping helpers return what their names define on every input in their domain (gcd and circular shift of non-negative numbers, powers of two that fit an int), duplicates, negative values and zero sums included. "
  "Range forms use exactly the given range, vector and array forms agree, in-place forms keep length, and adaptive thresholding subtracts the mean of the fixed window clipped to the data and floors at zero.",
  ["inputs"], "all argument values and lengths",
  "Corner cases (ties, negative values, limits of the integer range) are not sampled by the tests.",
  ["maths/MathUtilities.cpp", "maths/MathUtilities.h", "maths/MathAliases.h"],
  [("helpers", "maths/MathUtilities.cpp"), ("adaptive threshold window", "maths/MathUtilities.cpp: adaptiveThreshold")])

p("D03", "Pitch conversions are inverse and monotone over the whole MIDI range",
  "Pitch::getFrequencyForPitch and getPitchForFrequency are mutually inverse for every MIDI pitch, cents offset and concert tuning, with cents reported in the half-open semitone around the returned pitch. "
  "Frequency is strictly increasing in pitch and cents, doubles per octave and scales with the concert frequency.",
  ["inputs"], "all pitches 0-127, cent offsets and tunings",
  "Rounding at the semitone boundary appears only at particular offsets; no test uses Pitch.",
  ["base/Pitch.cpp", "base/Pitch.h"],
  [("rounding to nearest semitone", "base/Pitch.cpp: getPitchForFrequency")])

p("D04", "Polynomial fitting gives the least-squares polynomial and its fit quality",
  "TPolyFit::PolyFit2 sets the given coefficients to those of the polynomial of that many terms with the least squared error over the points, whatever the coefficients held before, points being allowed in any order and at repeated places; with as many terms as points it interpolates them. "
  "It returns the square root of the explained share of the variation, and declines fewer than two points, no terms or unlike-sized data by returning zero and leaving the coefficients alone; the data are never modified.",
  ["inputs"], "all sets of points and numbers of terms for which the least-squares polynomial is unique, and all unusable arguments",
  "Elimination with pivoting goes wrong only for particular pivot orders; no test uses the fit that peak picking relies on.",
  ["maths/Polyfit.h", "dsp/onsets/PeakPicking.cpp"],
  [("normal equations", "maths/Polyfit.h: PolyFit2, Square"), ("elimination with full pivoting", "maths/Polyfit.h: GaussJordan, GaussJordan2")])

p("G04", "Segmenter features are block means, kept in order, and decide the segmentation",
  "Each block given to the segmenter's extractFeatures adds exactly one feature vector: the mean, over frames of the extractor's length starting every half frame (the first always, later ones only while they end inside the block), of constant-Q magnitudes or MFCCs of the block brought down by a power of two towards the internal rate. "
  "Blocks that are too short, or come before initialisation, after segmentation or once features were given from outside, add nothing; clearing, setFeatures and re-initialisation (also for another sample rate) do what they say and nothing else. "
  "Segment types are those of the documented chain: normalisation and principal components plus envelope (constant-Q) or octave folding (chroma), scaling, HMM states, state histograms, clustering.",
  ["histories", "inputs", "configurations"], "all sample rates, window and hop sizes, feature types, blocks and histories of use",
  "No test extracts features or segments audio; mistakes in frame counting, rates or stage order only degrade the segmentation.",
  ["dsp/segmentation/ClusterMeltSegmenter.cpp", "dsp/segmentation/ClusterMeltSegmenter.h", "dsp/segmentation/cluster_segmenter.c", "dsp/segmentation/Segmenter.h"],
  [("block features", "dsp/segmentation/ClusterMeltSegmenter.cpp: extractFeaturesConstQ, extractFeaturesMFCC"), ("life cycle", "dsp/segmentation/ClusterMeltSegmenter.cpp: initialise, setFeatures, segment"), ("stages", "dsp/segmentation/cluster_segmenter.c: constq_segment, cluster_segment")])

p("G03", "Principal components: orthogonal projection in order of decreasing variance",
  "pca_project replaces data rows by their projections on orthogonal unit directions after centring: with all components every inner product of centred rows is preserved, components are uncorrelated and each has at least the variance of the next. "
  "Asking for fewer components gives the first ones of the full projection, for any numbers of rows and columns, rank-deficient and constant data included.",
  ["inputs"], "all data matrices and numbers of components",
  "Order and orthogonality of eigenvectors depend on the data; nothing in the test suite uses the projection.",
  ["maths/pca/pca.c", "dsp/segmentation/cluster_segmenter.c"],
  [("covariance", "maths/pca/pca.c: covcol"), ("eigen-decomposition", "maths/pca/pca.c: tred2, tqli"), ("projection", "maths/pca/pca.c: pca_project")])

p("W01", "Wavelet tables: every type gives a valid perfect-reconstruction low/high pair",
  "For every wavelet type Wavelet::createDecompositionFilters returns a low-pass and a high-pass decomposition filter that satisfy the two-channel filter bank's conditions: low-pass sum square root of two, high-pass sum zero, and for the orthogonal families unit energy, even-shift orthogonality and alternating-flip relation between the two. "
  "The result replaces whatever the vectors held before, and each type has its own name.",
  ["inputs", "configurations"], "all wavelet types",
  "A single wrong digit in the tables breaks reconstruction but nothing else notices; no test uses Wavelet.",
  ["dsp/wavelet/Wavelet.cpp", "dsp/wavelet/Wavelet.h"],
  [("coefficient tables", "dsp/wavelet/Wavelet.cpp: createDecompositionFilters"), ("names", "dsp/wavelet/Wavelet.cpp: getWaveletName")])

p("X01", "Instances are isolated: interleaving objects never changes any object's output",
  "Using several objects of any of the processing classes in any interleaving, with the same or different settings, gives each of them exactly the outputs it would give used alone. "
  "Creating or destroying one object never changes what another returns.",
  ["histories", "configurations"], "all interleavings of construction, processing, reset and destruction of several objects",
  "Shared or static state shows only when several objects are alive; tests use one object at a time.",
  ["dsp/rateconversion/Resampler.cpp", "dsp/phasevocoder/PhaseVocoder.cpp", "dsp/onsets/DetectionFunction.cpp", "dsp/keydetection/GetKeyMode.cpp", "dsp/signalconditioning/Filter.cpp", "dsp/transforms/FFT.cpp", "dsp/chromagram/ConstantQ.cpp", "dsp/mfcc/MFCC.cpp"],
  [("per-object state", "all processing classes")])

p("X02", "Stateless and reset objects carry no history into their results",
  "Calls that promise to be stateless (transforms, chromagram, constant-Q, MFCC, one-shot resampling, segmentation-free maths) return the same result for the same arguments whatever was processed before, and every reset operation (filters, decimators, phase vocoder, median filter, framer) makes the object behave exactly as newly constructed. "
  "Input buffers passed as const are never modified.",
  ["histories"], "all call histories before the compared call or reset",
  "Left-over state matters only after particular histories.",
  ["dsp/transforms/FFT.cpp", "dsp/transforms/DCT.cpp", "dsp/chromagram/Chromagram.cpp", "dsp/mfcc/MFCC.cpp", "dsp/signalconditioning/Filter.cpp", "dsp/signalconditioning/FiltFilt.cpp", "dsp/rateconversion/Decimator.cpp", "dsp/phasevocoder/PhaseVocoder.cpp", "maths/MedianFilter.h", "dsp/signalconditioning/Framer.cpp", "dsp/tempotracking/DownBeat.cpp"],
  [("scratch buffers and reset operations", "all processing classes")])

p("X03", "Objects give back all the memory they hold and do not grow with use",
  "When an object of any class is destroyed, whatever happened to it before, everything that was acquired for it by its construction, (repeated) initialisation, calls and resets has been released, by the means matching the one it was acquired by; "
  "calls that keep no state (matrix, HMM, clustering and PCA functions, one-shot resampling and statistics) and rejected constructions leave nothing behind; "
  "and an object called over and over with the same inputs does not hold more and more, except those that are there to collect, until they are reset.",
  ["histories", "configurations"], "all classes and settings, and all histories of construction, initialisation, calls, resets and destruction",
  "A leak never changes a result, so no test can fail from it; a host that analyses track after track runs out of memory.",
  ["hmm/hmm.c", "dsp/segmentation/ClusterMeltSegmenter.cpp", "dsp/segmentation/cluster_melt.c", "maths/pca/pca.c", "dsp/rateconversion/Resampler.cpp", "dsp/onsets/DetectionFunction.cpp", "dsp/tempotracking/TempoTrack.cpp", "dsp/tempotracking/DownBeat.cpp", "dsp/chromagram/Chromagram.cpp", "dsp/mfcc/MFCC.cpp", "dsp/phasevocoder/PhaseVocoder.cpp", "dsp/keydetection/GetKeyMode.cpp", "dsp/transforms/FFT.cpp", "dsp/signalconditioning/DFProcess.cpp", "thread/BlockAllocator.h"],
  [("HMM and its matrix inverse", "hmm/hmm.c: hmm_close, invert"), ("segmenter", "dsp/segmentation/ClusterMeltSegmenter.cpp: initialise, destructor, segment"), ("owned members and scratch", "constructors, initialise/deInitialise and destructors of all processing classes")])

p("X04", "Objects used from different threads share no memory that is written",
  "Threads that each use objects of their own need no locks: no operation (construction, call, reset, destruction) of one object, of any class, writes memory that an operation of another object reads or writes, "
  "except under a lock, atomically, or in the compiler's guarded making of a static object - neither scratch memory, nor tables made on first use, nor parts shared between objects of the same settings. "
  "(The state of the C library's random generator and the library's output streams are ordered by those libraries.)",
  ["schedules", "histories", "configurations"], "all classes and settings, all schedules of threads whose objects are their own",
  "Tests run in one thread; hosts run plugins in several, and a race shows only as a rare wrong result under some schedules.",
  ["dsp/transforms/FFT.cpp", "ext/kissfft/kiss_fft.c", "hmm/hmm.c", "ext/clapack/src/ilaenv.c", "ext/cblas/src/dlamch.c", "ext/cblas/src/cblas_dgemm.c", "dsp/keydetection/GetKeyMode.cpp", "dsp/tempotracking/TempoTrackV2.cpp", "dsp/rateconversion/Resampler.cpp", "dsp/wavelet/Wavelet.cpp", "maths/MathUtilities.cpp"],
  [("transform plans and working memory", "dsp/transforms/FFT.cpp: FFT::D, FFTReal::D"), ("bundled LAPACK", "ext/clapack/src, ext/cblas/src: working variables"), ("scratch and tables", "members of all processing classes; static data of the library")])

p("X05", "Bad sample values do no lasting damage",
  "Whatever values an input holds (not a number, infinite, so large that sums overflow, denormal, negative zero), every call of every class returns, without touching memory that is not its own and without modifying its input; "
  "and what it leaves behind is confined: classes that keep nothing between calls give, from the very next ordinary call on, the results of an object that never saw the bad values, and the others do so after a reset (or, having none, as new objects).",
  ["inputs", "histories"], "all classes and settings, all histories of calls with ordinary and bad inputs and resets",
  "Tests feed well-behaved signals; in a host one corrupt block must not crash the process or silence everything after it.",
  ["dsp/transforms/DCT.cpp", "dsp/transforms/FFT.cpp", "dsp/signalconditioning/Filter.cpp", "dsp/rateconversion/Decimator.cpp", "dsp/phasevocoder/PhaseVocoder.cpp", "maths/MedianFilter.h", "maths/MathUtilities.cpp", "dsp/mfcc/MFCC.cpp", "dsp/chromagram/ConstantQ.cpp", "dsp/tempotracking/TempoTrackV2.cpp", "dsp/onsets/PeakPicking.cpp"],
  [("reset by assignment", "Filter::reset, Decimator::resetFilter, PhaseVocoder::reset, MedianFilter::reset"), ("working memory", "dsp/transforms/DCT.cpp: m_time2; FFTReal::D::m_c"), ("bounded loops and indices", "MathUtilities::princarg, getMax, median; TempoTrack, DownBeat, PeakPicking")])

if __name__ == "__main__":
    out = os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))), "properties.jsonl")
    for q in P:
        assert len(q["title"]) <= 80, (q["id"], len(q["title"]))
    with open(out, "w") as f:
        for q in P:
            f.write(json.dumps(q) + "\n")
    print(len(P))
