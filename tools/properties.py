ENG = "exhaustive enumeration of bounded executions of the real code (stateless model checking), compared with an executable specification"
TRUST = "Trusts the f64 reference in mc/engine and the Rust compiler; nothing is sampled, but lengths and families outside the stated bounds are not covered."

prop("C01", "Every complex FFT entry point computes the DFT, at every length",
 "Every public forward complex FFT routine (the scalar and SIMD engines, auto-selected and planner-built engines, split real/imaginary and structure-of-arrays forms, parallel forms, stack-only forms, and the named algorithms radix-2, radix-4, split-radix, Stockham, mixed-radix and Bluestein) returns the unnormalised discrete Fourier transform X[k] = sum_n x[n] exp(-2*pi*i*k*n/N) of its input, within floating-point accuracy that does not degrade faster than the working precision allows. It does so for every supported length (any N >= 1 for the general engines, including primes, prime powers and composites of large primes), for f32 and f64, and for every input in the representable range.",
 ["inputs", "configurations"],
 "for all lengths within each routine's domain, element types, routines, strategies and complex inputs (linearity reduces inputs to the 2N basis vectors)",
 "The tests check a dozen hand-picked lengths, mostly powers of two, with one input each and tolerances up to 1e-2; the dispatch on the length (special kernels, radix-4, mixed radix, Bluestein, thresholds) means each length is its own path.",
 ["src/fft.rs", "src/fft_kernels.rs", "src/num.rs"],
 [("length dispatch of the scalar engine", "src/fft.rs ScalarFftImpl::fft"), ("Bluestein chirp convolution", "src/fft.rs bluestein"), ("Stockham autosort", "src/fft.rs stockham_fft"), ("SIMD kernels and fallbacks", "src/fft.rs SimdFft*Impl"), ("planner twiddles", "src/fft.rs FftPlanner")],
 observe=["FftImpl::fft", "FftPlan::fft", "fft_split", "fft_parallel", "fft_inplace_stack"],
 technique=ENG, note="Every length up to the bound x every entry point x the full basis (which determines a linear map) plus dense superpositions and magnitude extremes; f32 and f64. " + TRUST)

prop("C02", "Reused FFT engines, planners and plans answer like fresh ones",
 "The result of a transform depends only on its arguments: an engine, planner, plan or thread that has already performed any sequence of transforms (other lengths, other directions, other strategies, failed calls) returns for each further call what a fresh one returns. No earlier call leaves stale tables, scratch contents or sizes that change a later answer or make it fail.",
 ["histories"],
 "for all sequences of operations up to the depth bound on one engine, planner, plan or thread",
 "The tests nearly always use a fresh object per transform; stale scratch and cache bugs need two calls with particular lengths in a particular order.",
 ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs"],
 [("twiddle and scratch caches", "src/fft.rs FftPlanner, ScalarFftImpl"), ("rotating scratch buffers", "src/fft.rs stockham_fft, fft_split_simd"), ("plan reuse", "src/fft.rs FftPlan")],
 state=[("planner tables", "per-length twiddle caches filled on first use"), ("scratch", "Bluestein/Stockham work areas kept between calls")],
 observe=["FftImpl::fft/ifft/fft_strided/fft_with_strategy", "FftPlan", "RfftPlanner"],
 technique="exhaustive enumeration of all operation sequences up to a depth on the real objects (stateless model checking), each step compared with the specification", note="All sequences over an alphabet of operations that reaches every scratch/caching path. " + TRUST)

prop("C03", "Every inverse FFT is the inverse DFT and undoes the forward transform",
 "Every public inverse complex FFT routine returns x[n] = (1/N) sum_k X[k] exp(+2*pi*i*k*n/N) for every spectrum, not only those of real signals, and at every supported length. Composing any forward routine with any inverse routine of the same length gives back the input within working precision.",
 ["inputs", "configurations"],
 "for all lengths, inverse routines, element types and spectra, and all forward/inverse pairs",
 "The tests do round trips at a few power-of-two lengths; a pair of compensating errors (wrong scale, wrong conjugation) or a length that takes another path is not seen.",
 ["src/fft.rs"],
 [("conjugate-transform-conjugate-scale", "src/fft.rs ifft"), ("plan inverse", "src/fft.rs FftPlan::ifft"), ("stack inverse", "src/fft.rs ifft_inplace_stack")],
 observe=["FftImpl::ifft", "ifft_split", "ifft_parallel", "FftPlan::ifft"],
 technique=ENG, note="Every length up to the bound x every inverse entry point x the full basis of spectra, and all forward/inverse pairs. " + TRUST)

prop("C04", "Strided, out-of-place and batched transforms touch only what they address",
 "A strided transform reads and writes exactly the elements at its stride positions and leaves every other element of the buffer bit for bit unchanged; an out-of-place transform leaves its source unchanged and writes exactly its destination; a batched or multi-channel transform transforms every item independently of the others. Each addressed element receives the value the plain transform of the addressed sequence would give.",
 ["inputs", "configurations"],
 "for all lengths, input and output strides, slack elements, batch shapes and engines up to the bounds",
 "The tests use one or two strides with power-of-two lengths and compare only the addressed elements.",
 ["src/fft.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/rfft.rs"],
 [("strided gather/scatter", "src/fft.rs fft_strided"), ("out-of-place strided", "src/fft.rs fft_out_of_place_strided"), ("batch helpers", "src/fft.rs batch, multi_channel")],
 observe=["FftImpl::fft_strided", "FftImpl::fft_out_of_place_strided", "batch", "multi_channel"],
 technique=ENG + "; gaps carry distinct NaN payloads so any stray read or write is seen", note="All combinations of length, strides and slack up to the bound on every engine. " + TRUST)

prop("C05", "Arguments that do not fit report an error, change nothing and never panic",
 "Whenever the arguments of a fallible operation do not fit together (empty input, mismatched lengths, zero or overflowing strides, zero hop, wrong buffer sizes, unsupported lengths), the call returns an error that describes a fault that is present, leaves the caller's data unchanged (a batch stops at the first item it refuses, that item and later ones unchanged) and does not panic. Whenever the arguments fit, the call succeeds.",
 ["inputs"],
 "for all combinations of length, stride, hop and buffer-size arguments up to the bounds, including zero and values near the integer limits",
 "Tests try one wrong value per function; combinations of arguments (order of checks, overflow of products) are unbounded.",
 ["src/fft.rs", "src/rfft.rs", "src/stft.rs", "src/dct.rs", "src/dst.rs", "src/hartley.rs", "src/ndfft.rs", "src/wavelet.rs", "src/cepstrum.rs", "src/hilbert.rs", "src/goertzel.rs"],
 [("argument validation", "each entry point"), ("error type", "src/fft.rs FftError")],
 observe=["Result of each fallible operation", "the caller's buffers after a failure"],
 technique=ENG + " of the argument space around every boundary", note="Full cartesian products of small and extreme argument values for every fallible entry point. " + TRUST)

prop("C06", "Real FFTs give the half spectrum of a real signal and their inverses undo it",
 "Every real-input FFT routine (engine, planner, packed, stack-only, structure-of-arrays, parallel) returns the first N/2+1 bins of the DFT of its real input, and every inverse real FFT routine returns the real signal whose half spectrum it is given, for every supported length and both element types. The round trip returns the input within working precision.",
 ["inputs", "configurations"],
 "for all even and odd lengths in each routine's domain, element types, engines and signals",
 "The tests cover a few power-of-two lengths with smooth inputs and loose tolerances.",
 ["src/rfft.rs", "src/fft.rs"],
 [("even/odd packing", "src/rfft.rs"), ("twiddle recombination", "src/rfft.rs"), ("planner cache", "src/rfft.rs RfftPlanner")],
 observe=["RealFftImpl::rfft/irfft", "rfft_stack", "irfft_stack", "rfft_packed"],
 technique=ENG, note="Every length up to the bound x every entry point x the full basis. " + TRUST)

prop("C07", "STFT frame k is the DFT of the windowed segment at k*hop, in every form",
 "Frame k of every short-time Fourier transform form (batch, parallel, single frame, streaming, magnitude) is the DFT of window[i]*signal[k*hop+i], with samples past the end of the signal taken as zero, for every signal length, window, window length, hop and frame count. The number of frames a form delivers is exactly the number its arguments call for, and the magnitude form is the normalised magnitude of the same frames.",
 ["inputs", "configurations"],
 "for all signal lengths, window lengths, hops (smaller, equal, larger than the window), frame counts, windows and signals up to the bounds",
 "Tests use one or two window/hop pairs; the padding, the last partial frame and hops larger than the window are separate cases.",
 ["src/stft.rs"],
 [("frame extraction", "src/stft.rs stft, frame"), ("streaming analysis", "src/stft.rs StftStream"), ("parallel analysis", "src/stft.rs parallel"), ("magnitudes", "src/stft.rs stft_magnitudes")],
 observe=["stft", "parallel", "frame", "StftStream::next_frame", "stft_magnitudes"],
 technique=ENG, note="Full product of signal length, window length, hop and engine up to the bound, all unit impulses. " + TRUST)

prop("C08", "Inverse STFT is the normalised overlap-add and reconstructs covered samples",
 "Every inverse short-time transform form returns the overlap-add of the windowed inverse DFTs of its frames divided, wherever the accumulated squared window exceeds the documented threshold, by that accumulated squared window. It therefore reconstructs any signal from its own short-time transform at every sample the window covers, whatever the output buffer held before.",
 ["inputs", "configurations"],
 "for all frame counts, window shapes and lengths, hops, output lengths and spectra up to the bounds",
 "Tests reconstruct one signal with one window and hop and compare part of it with loose tolerance.",
 ["src/stft.rs"],
 [("overlap-add", "src/stft.rs istft, inverse_parallel, inverse_frame"), ("normalisation", "src/stft.rs NORM_EPSILON"), ("streaming synthesis", "src/stft.rs IstftStream")],
 observe=["istft", "inverse_parallel", "IstftStream::push_frame/flush"],
 technique=ENG, note="Full product of frames, window, hop and output length up to the bound, arbitrary spectra and round trips through every analysis form. " + TRUST)

prop("C09", "Streaming STFT/ISTFT behave as a batch over the frames accepted, in any history",
 "Over any sequence of calls on a streaming analysis or synthesis object (accepted frames, rejected frames, engine failures, flushes), the concatenated output is exactly what the batch transform of the accepted frames gives, every call returns the number of samples or frames its position in the stream calls for, and a rejected or failed call has no effect on what later calls return. No sequence panics.",
 ["histories", "fault_sequences"],
 "for all operation sequences up to the depth bound, window lengths, hops, windows, and engine failures at any call",
 "Tests push a handful of good frames in one order; errors in the middle of a stream and hops that do not divide the window are never exercised.",
 ["src/stft.rs"],
 [("IstftStream buffer and normalisation state", "src/stft.rs IstftStream"), ("StftStream position", "src/stft.rs StftStream")],
 state=[("pos / buffers", "samples awaiting overlap and their accumulated squared window")],
 observe=["StftStream::next_frame", "IstftStream::push_frame", "IstftStream::flush"],
 technique="explicit-state exploration of a reference automaton to a depth bound, every model trace replayed step by step against the implementation (conformance), engine faults injected at every call", level=MC,
 note="States and transitions of the automaton are enumerated exhaustively and every sequence is replayed on the real stream objects. " + TRUST)

prop("C10", "Parallel helpers give the sequential result under every schedule and setting",
 "Every parallel helper (FFT, real and N-D transforms, STFT, inverse STFT, batches) returns the same result as its sequential counterpart whatever the order in which its tasks run, the number of worker threads, and the values of the tuning overrides and environment variables. No setting, however extreme, makes a call panic or changes a result.",
 ["schedules", "configurations"],
 "for all task orders and worker assignments up to a deviation bound, thread counts, tuning setters and environment values",
 "The tests run one schedule on one machine with default settings.",
 ["src/fft.rs", "src/stft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs"],
 [("parallel threshold heuristics", "src/fft.rs parallel config"), ("thread-local planner", "src/fft.rs"), ("parallel frames", "src/stft.rs parallel, inverse_parallel")],
 state=[("thread-local planners", "one planner per worker"), ("global overrides", "atomics that select when to go parallel")],
 observe=["fft_parallel", "ifft_parallel", "stft::parallel", "stft::inverse_parallel", "set_parallel_*"],
 technique="stateless model checking: kofft compiled against a rayon stand-in with a controlled scheduler, all task orders and worker assignments explored (deviation-bounded)",
 note="Schedules are those of atomic tasks; rayon's own deque is trusted. " + TRUST)

prop("C11", "DCT types I-IV match their definitions in every form and invert as documented",
 "Every discrete cosine transform form (direct types I to IV, planned type II, batched, multi-channel, stack-only) computes the transform of its definition for every length in its domain. Types II and III, I and I, and IV and IV invert each other up to the documented scale, and a planner gives the same answer whatever lengths it planned before.",
 ["inputs", "histories"],
 "for all lengths up to the bound, all inputs (unit impulses), all planning histories up to the depth bound",
 "Tests use one or two small lengths per type.",
 ["src/dct.rs"],
 [("direct sums", "src/dct.rs"), ("DctPlanner", "src/dct.rs"), ("batch and stack forms", "src/dct.rs")],
 observe=["dct1..dct4", "dct2_inplace_stack", "DctPlanner", "batch_*", "multi_channel_*"],
 technique=ENG, note="Every length up to the bound x every form x the full basis. " + TRUST)

prop("C12", "DST types I-IV and Hartley match their definitions and invert as documented",
 "Every discrete sine transform form (types I to IV, batched, multi-channel, stack-only, planner tables) and every Hartley transform form computes the transform of its definition for every length, and each is undone by its documented inverse up to the documented scale. Planner tables hold the values the definition gives whatever was requested before.",
 ["inputs", "histories"],
 "for all lengths up to the bound, all inputs (unit impulses), all sequences of table requests up to the depth bound",
 "Tests use one or two small lengths per type.",
 ["src/dst.rs", "src/hartley.rs"],
 [("direct sums", "src/dst.rs, src/hartley.rs"), ("DstPlanner", "src/dst.rs"), ("batch and stack forms", "src/dst.rs, src/hartley.rs")],
 observe=["dst1..dst4", "dht", "DstPlanner", "batch_*", "multi_channel_*", "*_inplace_stack"],
 technique=ENG, note="Every length up to the bound x every form x the full basis. " + TRUST)

prop("C13", "Wavelet transforms follow their filters, compose over levels and reconstruct",
 "One level of each wavelet analysis (Haar, Daubechies 2 and 4, Symlet 4, Coiflet 1) convolves the symmetrically extended signal with the wavelet's low-pass and high-pass taps and keeps every second sample; synthesis is the transposed filter bank. Haar and the orthogonal pairs reconstruct the signal (for the longer filters: away from the boundary), and multi-level, batched and stack-only forms give exactly the composition of the one-level form for every length, odd and empty ones included, and every level count.",
 ["inputs", "configurations"],
 "for all wavelets, forms, signal lengths and level counts up to the bounds, all inputs (unit impulses)",
 "The tests use one short even signal per wavelet; odd lengths, signals shorter than the filter and more levels than the length supports are separate cases.",
 ["src/wavelet.rs"],
 [("one-level analysis and synthesis", "src/wavelet.rs *_forward, *_inverse"), ("levels", "src/wavelet.rs multi_level_*"), ("stack and batch forms", "src/wavelet.rs haar_*_inplace_stack, *_batch")],
 observe=["*_forward", "*_inverse", "*_multi", "multi_level_*", "batch_*", "haar_*_inplace_stack"],
 technique=ENG, note="Every length and level count up to the bound x the full basis per wavelet. " + TRUST)

prop("C14", "Window functions follow their formulas at every sample",
 "Every window generator (Hann, Hamming, Blackman, Kaiser, Tukey, Bartlett, Bohman, Nuttall, and the stack-only forms) returns, for every length including 0, 1 and 2 and every shape parameter in its domain, exactly that many finite samples following the window's formula. Heap and stack forms agree.",
 ["inputs", "configurations"],
 "for all windows, lengths up to the bound and shape parameters on a grid including the extremes",
 "The tests look at the length, the first sample or the symmetry of one small window each.",
 ["src/window.rs", "src/window_more.rs"],
 [("cosine windows", "src/window.rs"), ("Bessel series", "src/window.rs kaiser"), ("other windows", "src/window_more.rs")],
 observe=["hann", "hamming", "blackman", "kaiser", "tukey", "bartlett", "bohman", "nuttall", "*_inplace_stack"],
 technique=ENG, note="Every length up to the bound x every sample x parameter grid. " + TRUST)

prop("C15", "The song index identifies songs as its documented name-then-content lookup",
 "Over any history of files being written, changed, removed or replaced by directories and of index and identify calls, identify returns the song last recorded under the file's name if there is one (without reading the file), otherwise the song recorded with the same content, otherwise it records and returns the file itself. index_song always records the file under its name and its content; a call that fails to read its file returns an error and changes nothing.",
 ["histories", "fault_sequences"],
 "for all histories of file changes, index and identify calls over files sharing names, contents or neither, including unreadable and non-Unicode-named files",
 "Tests run three fixed two-call sequences; what a lookup leaves behind for the next (recorded names, hashes, failures) needs longer histories.",
 ["src/media/index.rs"],
 [("lookup order", "src/media/index.rs identify"), ("recording", "src/media/index.rs index_song"), ("content hash", "src/media/index.rs hash_file")],
 state=[("by_name", "last song recorded under each file name"), ("by_hash", "song recorded for each content")],
 observe=["SongIndex::index_song", "SongIndex::identify"],
 technique="explicit-state model checking of a reference automaton to its fixed point, every transition replayed against the real index on real files along a shortest path (conformance), plus all unmerged operation sequences to a depth", level=MC,
 note="All reachable states and transitions of the automaton; the implementation is compared after every step. Trusts BLAKE3 and the file system.")

prop("C16", "Spectrogram magnitudes, decibels, colours and log bins follow their definitions",
 "Spectrogram magnitudes are the normalised magnitudes of the short-time transform frames; decibel and dynamic-range scaling follow their formulas and stay within their range; every colour map is monotone between and exact at its stops, total over all inputs (NaN and infinities included), with 16-bit colours matching the 8-bit ones; and the logarithmic bin mapping sends bins to pixels monotonically, within range, keeping the end points. None of these functions panics for any argument.",
 ["inputs", "configurations"],
 "for all colour maps and inputs on a complete grid and around every stop, all bin counts up to the bound, all magnitude and range arguments including extremes",
 "The tests sample a few colours and one mapping; range ends, non-finite inputs and tiny sizes are not covered.",
 ["src/visual/spectrogram.rs"],
 [("magnitudes", "src/visual/spectrogram.rs stft_magnitudes"), ("decibels", "magnitude_to_db, db_scale"), ("colours", "map_color_u8, map_color_u16"), ("log axis", "map_bin_to_pixel, log_scale_bins")],
 observe=["stft_magnitudes", "magnitude_to_db", "db_scale", "map_color_*", "color_from_magnitude_*", "map_bin_to_pixel", "log_scale_bins"],
 technique=ENG, note="65536-step colour grids, every (bin, size) pair up to the bound. " + TRUST)

prop("C17", "Goertzel, chirp-z, Hilbert, cepstrum and mel features follow their definitions",
 "Goertzel returns the magnitude of the DFT bin its frequency falls into; the chirp-z transform returns sum_n x[n] a^-n w^(nk) for every m, w and a; the analytic signal has the input as real part and no negative frequencies; the real cepstrum is the inverse transform of the log magnitude spectrum; and the mel filterbank, MFCCs and their batch form follow their triangular-filter and cosine-transform definitions. All hold for every supported length and parameter.",
 ["inputs", "configurations"],
 "for all lengths, frequencies, sampling rates, chirp parameters, filter and coefficient counts up to the bounds, and signals (unit impulses for the linear maps)",
 "Tests check one tone or an output length per function.",
 ["src/goertzel.rs", "src/czt.rs", "src/hilbert.rs", "src/cepstrum.rs"],
 [("Goertzel recurrence", "src/goertzel.rs"), ("chirp sums", "src/czt.rs"), ("spectral gain", "src/hilbert.rs"), ("cepstrum, mel filters", "src/cepstrum.rs")],
 observe=["goertzel_f32", "czt_f32", "hilbert_analytic", "real_cepstrum", "mel_filterbank", "mfcc", "mfcc_batch"],
 technique=ENG, note="Every length and parameter up to the bounds x the full basis where linear. " + TRUST)

prop("C18", "Every build configuration meets the same specification",
 "Whatever cargo features (std or none, parallel, simd, soa, x86_64, sse, avx2, avx512, slow, compile-time-rfft, precomputed-twiddles) and processor features kofft is compiled with, it compiles, and every transform available in that configuration returns the mathematically defined result within working precision for every length it supports. Without std, the only difference is that transforms whose length is not a power of two may be refused with NonPowerOfTwoNoStd, leaving data transformed in place unchanged.",
 ["configurations", "inputs"],
 "for all listed build configurations, and in each for all lengths, entry points and inputs up to the bounds of the other checks",
 "The existing tests run with all features at once or with the default ones; code compiled only without std, with other table sources or for wider vector units is never executed by them.",
 ["src/num.rs", "src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/window.rs", "src/hartley.rs", "src/goertzel.rs", "build.rs"],
 [("trigonometry with and without std", "src/num.rs"), ("table sources", "build.rs, src/fft.rs precomputed, src/rfft.rs compile-time tables"), ("vector paths", "src/fft.rs, src/rfft.rs cfg(target_feature)")],
 observe=["all public transforms in each configuration"],
 technique=ENG + "; one program per build configuration, each enumerating the same cases", note="Eight configurations; configurations for other processors (NEON, SIMD128) cannot be executed here. " + TRUST)

prop("C20", "Stack-only routines never allocate; nothing leaks or grows with use",
 "The stack-only transforms, wavelets and windows make no heap allocation for any length, input or refusal, and return what the heap forms return. Every other routine gives back all memory it takes, and repeating work on one engine, planner, plan, stream or song index does not make it hold more memory than its caches for the lengths (or songs) it has seen. An endless stream therefore runs in bounded memory.",
 ["inputs", "histories"],
 "for all stack-only routines and lengths in the list (every small one, powers of two to 2048), all one-shot routines and lengths up to the bound, all sequences of operations up to the depth on one set of engines and planners, all (window, hop) streams up to the bound",
 "No test observes the heap; growth per call is invisible to any test that checks values.",
 ["src/fft.rs", "src/rfft.rs", "src/dct.rs", "src/dst.rs", "src/wavelet.rs", "src/window.rs", "src/stft.rs", "src/media/index.rs"],
 [("stack-only routines", "src/fft.rs fft_inplace_stack, src/rfft.rs rfft_stack, src/dct.rs and src/dst.rs *_inplace_stack"), ("planner scratch", "src/fft.rs FftPlanner"), ("stream buffers", "src/stft.rs IstftStream")],
 state=[("live bytes", "heap bytes held by the calling thread, counted by the allocator")],
 observe=["global allocator", "*_stack", "IstftStream::push_frame"],
 technique=ENG + ", under an allocator that counts", note="Complete up to the bounds listed in the evidence. " + TRUST)

prop("C21", "2-D and 3-D FFTs are the separable DFT for every shape",
 "fft2d_inplace and fft3d_inplace compute the DFT along every axis of a row-major array of any shape (including empty and degenerate ones), whatever their scratch buffers held. They refuse data or scratch buffers that do not fit the shape, and shapes whose volume overflows, leaving the data unchanged; flatten_2d and flatten_3d keep row-major order and refuse ragged arrays.",
 ["inputs", "histories"],
 "for all shapes up to the bound and a list of large ones, the full basis of small arrays, every wrong buffer length, every nested array up to the bound, every sequence of shapes up to the depth on one engine",
 "The tests transform a 2x2 and a 2x2x2 array there and back: a wrong axis order, stride or forward sign cancels out.",
 ["src/ndfft.rs", "src/fft.rs"],
 [("row-column passes", "src/ndfft.rs fft2d_inplace"), ("depth-row-column passes", "fft3d_inplace"), ("strided transforms", "src/fft.rs fft_strided")],
 observe=["fft2d_inplace", "fft3d_inplace", "flatten_2d", "flatten_3d"],
 technique=ENG, note="Every shape up to 17x17 (2-D) and 6x6x6 (3-D) in the quick tier. " + TRUST)

prop("C23", "No input makes the library touch memory outside the buffers it was given",
 "Whatever lengths, strides, offsets and alignments its arguments have, the library reads and writes only inside the slices it was given and memory it allocated and has not released, and no result depends on memory nobody wrote or on where a buffer lies.",
 ["inputs"],
 "for all safe routines of the crate, all lengths up to the bound and a list of long ones, strides 1-4, offsets 0-8 and both placements of every allocation against an inaccessible page",
 "An access a few elements past a buffer usually hits memory of the same process and changes nothing a test compares.",
 ["src/fft.rs", "src/rfft.rs", "src/fft_kernels.rs", "src/num.rs"],
 [("unsafe casts and pointer loops", "src/fft.rs stockham_fft_with_threshold, fft_split_simd"), ("uninitialised scratch", "src/fft.rs fft_strided_alloc, src/rfft.rs rfft, irfft"), ("vector loads", "src/rfft.rs rfft_direct_f32_avx, src/fft.rs SIMD kernels")],
 observe=["SIGSEGV on a fence page", "result bits"],
 technique=ENG + ", between inaccessible pages and with poisoned fresh memory", note="Each routine runs five times per length: unfenced and with four combinations of placement and fill. " + TRUST)

prop("C24", "Planner tables hold their documented values, whatever was requested before",
 "Every table a planner hands out (stage twiddles, chirp and kernel spectrum, strategy choice, real-transform twiddles and pack buffers, DST tables, twiddle factor buffers) holds its documented values for every length. A table handed out earlier stays valid and unchanged whatever is requested afterwards, and an engine built on a warmed planner returns the same results as a fresh one.",
 ["inputs", "histories"],
 "for all lengths up to the bound, both element types, all sequences of requests up to the depth on one planner",
 "Tables are compared by tests for one length each; a cache that confuses two lengths needs a particular history of requests.",
 ["src/fft.rs", "src/rfft.rs", "src/dst.rs"],
 [("FFT planner caches", "src/fft.rs FftPlanner get_twiddles, get_bluestein, plan_strategy"), ("real FFT planner caches", "src/rfft.rs RfftPlanner"), ("DST tables", "src/dst.rs DstPlanner")],
 state=[("planner caches", "tables by length, and the pool of scratch buffers")],
 observe=["FftPlanner", "RfftPlanner", "DstPlanner", "TwiddleFactorBuffer", "ScalarFftImpl::with_planner"],
 technique=ENG, note="Every length up to the bound, then request histories. " + TRUST)

prop("C25", "Number types compute what they name; layout conversions move values unchanged",
 "Complex arithmetic, conversion from f32 and f64, and the trigonometric functions of the number traits return the mathematically defined values for every operand, special values included. Conversions between interleaved and split layouts, owned or borrowed, put each value unchanged at its index, and refuse buffers of different lengths instead of moving part of the data.",
 ["inputs"],
 "for all pairs of operands of the value grid (zeros of both signs, extremes, infinities, NaN), all lengths and pairs of buffer lengths up to the bound",
 "Tests use a handful of small integers, for which a swapped or rounded component often compares equal.",
 ["src/num.rs"],
 [("complex arithmetic", "src/num.rs Complex"), ("float trait", "src/num.rs Float"), ("layouts", "src/num.rs ComplexVec, copy_from_complex, copy_to_complex, SplitComplex")],
 observe=["Complex", "Float", "ComplexVec", "SplitComplex", "SplitComplex32", "copy_from_complex", "copy_to_complex"],
 technique=ENG, note="Complete over the value grid and all lengths up to the bound. " + TRUST)

prop("C26", "Engine failures are reported exactly and leave later calls unaffected",
 "Every routine built on a transform engine (out-of-place, strided and split wrappers, batches, real transforms and their planner, short-time transforms and streams) returns exactly the first error its engine reports, at whichever of its engine calls that happens, and lets an engine's panic pass. Split parts and accumulated outputs are then unchanged, the items of a batch keep their number and lengths, every later call on the same objects returns what fresh objects return, and engines are only handed memory that was written before.",
 ["faults", "histories"],
 "for every engine call of every routine and length up to the bound, all errors and a panic, and all histories of working, failing and panicking calls up to the depth",
 "The tests only use an engine that never fails.",
 ["src/fft.rs", "src/rfft.rs", "src/stft.rs"],
 [("default engine methods", "src/fft.rs FftImpl"), ("batches", "batch, batch_inverse, multi_channel"), ("real transforms", "src/rfft.rs RfftPlanner, rfft_packed, irfft_packed, RealFftImpl"), ("short-time transforms", "src/stft.rs")],
 state=[("planner scratch and tables", "RfftPlanner")],
 observe=["FftImpl implemented by the caller", "Result of every routine"],
 technique=FAULT, note="A user-defined engine that fails or panics at a chosen call, clobbering its buffers. " + TRUST)

prop("C19", "xtask turns the detected machine into exactly the matching commands",
 "For every machine it can detect, xtask enables the architecture's feature, the widest vector feature the processor lists and parallel exactly if there are several processors, adds KOFFT_FEATURES verbatim, and sets RUSTFLAGS only for benchmarks. It starts exactly the command of the chosen task with its arguments unaltered, starts no further step after one that failed, and exits with the status of what it ran; every feature and example it names exists.",
 ["configurations", "inputs", "faults"],
 "for all architectures, processor flag sets, processor counts and feature lists in the bound, all sources of detection (present, absent, overridden), all subcommands and all exit statuses of every step",
 "The tests look for single words in a few commands and never run the program.",
 ["xtask/src/lib.rs", "xtask/src/main.rs"],
 [("detection", "xtask/src/lib.rs detect_config, compute_config"), ("commands", "*_command"), ("dispatch and status", "xtask/src/main.rs")],
 observe=["compute_config", "*_command", "xtask program under stand-ins for cargo, uname, lscpu, sysctl, sh"],
 technique=ENG, note="The program runs with a PATH of recording stand-ins only. Trusts the stand-ins; cargo itself is not run.")

prop("C22", "The sanity-check tool decodes audio exactly and draws the right image",
 "read_audio returns the mono mix of the samples a WAV or FLAC file holds, scaled by its bit depth, with its sampling rate; save_png and save_svg write every pixel at the requested depth, replacing what was there; and the program draws each bin of each frame in its colour, time to the right and frequency upwards, for every option. Truncated or corrupted files, unusable parameters and unwritable places end in an error or, for streamed formats, a prefix of the samples: never in a panic or a wrong result.",
 ["inputs", "configurations", "faults"],
 "for all bit depths, channel counts and lengths up to the bound, every 8- and 16-bit sample value, every truncation point and every value of every byte of small files, all image sizes up to the bound and all channel values, all option combinations in the list",
 "The tests decode three fixtures and look at lengths; torn files, other depths and pixel values are never checked.",
 ["sanity-check/src/lib.rs", "sanity-check/src/main.rs"],
 [("decoding", "sanity-check/src/lib.rs read_audio, read_wav"), ("images", "save_png, save_svg"), ("drawing", "sanity-check/src/main.rs")],
 observe=["read_audio", "save_png", "save_svg", "sanity-check program"],
 technique=FAULT, note="Every truncation and every single-byte corruption of small files. Trusts the png crate's decoder and this checker's FLAC writer.")

prop("C27", "The web application shows exactly the spectrogram the library computes",
 "The browser bindings return the library's answers unchanged; the frame stream holds what was pushed since the last reset, answers nothing until a full window of 1024 samples is held and then, per call, the colours (current map, loudest magnitude so far as reference, -80 dB floor) of the Hann-windowed spectrum of the next frame, 512 samples after the last. The page, whatever kinds of drawing context the canvas offers, draws the first channel's spectrogram of the file selected last, in whatever order files finish loading, frame x at column x and bin y at row y in its colour, at the result's size, and draws nothing for no file or an undecodable one. The server and the offline worker answer every request with exactly the named file, the index page for unknown paths, cached copies first and the network otherwise, and nothing outside the directory.",
 ["histories", "schedules", "inputs", "configurations"],
 "for all sequences of pushes, colour maps and resets and of file selections up to the depth, all interleavings of overlapping selections, all canvas sizes up to the bound and sets of context kinds, all request paths of the list in every encoding, every cache and network state",
 "The page's tests check one function with one canvas, the bindings' tests one call each; none drives a stream, a sequence of selections, or the server.",
 ["web-spectrogram/src/lib.rs", "web-spectrogram/src/main.rs", "web-spectrogram/app.mjs", "web-spectrogram/sw.js"],
 [("bindings", "web-spectrogram/src/lib.rs stft_magnitudes, fft_split, dct2, haar_*, colours"), ("frame stream", "web-spectrogram/src/lib.rs compute_frame, set_colormap, reset_state"), ("page", "web-spectrogram/app.mjs initApp, drawSpectrogram, magnitudeToDb, ensureBuffer"), ("server", "web-spectrogram/src/main.rs"), ("offline worker", "web-spectrogram/sw.js")],
 state=[("samples held, loudest magnitude, colour map", "State in web-spectrogram/src/lib.rs"), ("kind of context a canvas has given out", "the page's canvas")],
 observe=["bindings called natively", "app.mjs and sw.js in node with a recorded document, canvas and cache", "web-spectrogram program over HTTP on the loopback interface"],
 technique=ENG + " Stream and page: explicit automaton, every trace replayed on the real code.", level=MC, note="Bindings run natively rather than as WebAssembly; WebGL is a model of the specification, with an interpreter for the shaders. Trusts node and these models.")
