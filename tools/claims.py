TECH = {'proof': 'contract-based deductive verification of the real code (pyvc: contracts discharged from the AST of /repo by symbolic execution, ring normalisation, z3 and cvc5), with the same contracts run as bounded oracles on the real code for functions outside the verifier\'s subset',
        'other': 'contract-based deductive verification of the functions inside the verifier\'s subset (pyvc, z3, cvc5); the remaining functions bounded: contracts run as oracles on the real code'}
CLAIMS = {
 'C01': ('other', 'Proved: the block-stream contract (row r is a function of r alone, all blocks but the last full, all rows delivered) of TimeSamples, MaskedTimeSamples, MaskedTimeOut, Calib, ChannelMixer, Mixer, SourceMixer, TimePower, TimeCumAverage, TimeReverse, Filter, FiltOctave, TimeExpAverage, FiltFreqWeight, FiltFiltOctave, OctaveFilterBank (1-3 bands), Average, PointSource (modular), RFFT, IRFFT, AutoPowerSpectra, CrossPowerSpectra, WriteH5, SpatialInterpolator*, Cache, for every num, every signal length and channel count. Bounded: TimeConvolve, the moving and extended sources, the time beamformers, SampleSplitter, all classes in random chains (each generator read with several block sizes and compared). Not part of the property: CLEAN in the time domain (works block by block by definition), IntegratorSectorTime with clip relative to the maximum of the block, the block size of the first consumer of a SampleSplitter.'),
 'C02': ('other', 'Proved: no write to an array owned by the source, for every class with a stream contract (frame obligations) and for the spectra. Bounded: all generators and cached quantities: copies taken before, compared after reading every output, blocks held while the next ones are made (blocks are not overwritten).'),
 'C03': ('other', 'Static, all classes: the settings that the outputs of a class read (over-approximated from the AST, through parts, properties and helpers) are contained in what its digest depends on; and what others read of a part is in the digest of that part. Bounded: dynamic oracle changes every trait of every class (and items of lists and dictionaries) and requires a new identifier exactly when an output changes, the same identifier for equal objects in another process, and separation of neighbouring values and of the borders between settings.'),
 'C04': ('other', 'Static, all classes: every cached quantity declares (depends_on, or via the digest of a part) what its getter reads, and LazyBfResult.__getitem__ is proved to compute each requested row before it is handed out. Bounded: dynamic oracle: read everything, change one setting (assignment or in-place change of a list or dictionary), read again, compare with a fresh object of the same settings.'),
 'C05': ('proof', 'Proved: calcCSM adds the outer product of the block spectra into the upper triangle; PowerSpectra.calc_csm = 2/(bs |w|^2 B) sum over the B windows of conj-outer-products, Hermitian, with or without windows and overlaps; num_blocks for signals of complete blocks; fftfreq; calc_ev. Bounded: real signals incl. incomplete blocks, precision, imported matrices.'),
 'C06': ('proof', 'Proved: beamformerFreq for all formulations (classic, inverse, true level, true location, custom) x with/without diagonal x CSM or eigenvalue form equals the quadratic form of the documented steering vector; BeamformerBase._calc, Eig, Capon, Music, Functional (normalisation, clipping, only requested rows written). Bounded: the classes end to end, the remaining beamformers.'),
 'C07': ('proof', 'Proved: calcTransfer, _steer_I.._IV, SteeringVector.transfer and steer_vector for all/one/several grid points against the closed formulas, the unit-gain / norm statements of each formulation, r0, rm. Bounded: end-to-end comparison.'),
 'C08': ('proof', 'Proved: calcPointSpreadFunction for all formulations = |steer^H transfer|^2 of the unit source, _psf_call (wave number, columns), calc_psf in single/block/full mode (column i is the PSF of grid point i; flag set; every missing point), psf without cache. Bounded: with caches, changes of grid, float32.'),
 'C09': ('proof', 'Proved: damasSolverGaussSeidel (each step is the documented relaxed projected update of one entry; solution stays non-negative) and BeamformerDamas._calc around it. Bounded: DAMAS+ (NNLS, LASSO ..), CLEAN, CLEAN-SC, orthogonal, CMF, SODIX, GIB against references written from the papers; non-negativity of all.'),
 'C10': ('other', 'Proved: kernels _delayandsum4, _delayandsum5 (linear interpolation at the delayed position; moving). Bounded: BeamformerTime, Sq, Traj, SqTraj, CLEAN-T against references that interpolate from the whole signal, over random geometry, weights, trajectories, flow environments and block sizes.'),
 'C11': ('other', 'Proved: RectGrid, RectGrid3D: steps, size/shape/positions/lattice; index() of a point is the nearest lattice point and a point outside is rejected; LineGrid. Bounded: ImportGrid, MergeGrid, indices() of sectors, extend.'),
 'C12': ('other', 'Proved: contains() of RectSector, RectSector3D, CircSector, MultiSector (condition or nearest point, border), integrate() and BeamformerBase.integrate = exact sums over the selection in 1-D and 2-D for sectors and index ranges, with and without frequency range. Bounded: polygon and convex sectors, MetricEvaluator, IntegratorSectorTime, additivity over random partitions.'),
 'C13': ('other', 'Proved: MaskedTimeSamples, MaskedTimeOut, Calib, MicGeom: channels, num_samples, pos/num_mics and streams hold exactly the items that are not excluded, in order, and calibration factors stay aligned. Bounded: duplicates, out-of-range entries, combinations, beamforming with exclusions equals beamforming of the reduced array.'),
 'C14': ('other', 'Proved: dist_mat, Environment._r, UniformFlowEnvironment._r (closed convected length), flow profiles of OpenJet, SlotJet, RotatingFlow and that the second value is the Jacobian of the first. Not within reach: the ODE integration of GeneralFlowEnvironment (scipy ode, Delaunay interpolation): bounded against rays integrated with an independent solver, uniform-flow limit.'),
 'C15': ('other', 'Proved: SamplesBuffer: level, write, increase, read in the three modes, creation: with the representation invariant (unread samples = last level rows of the buffer) every sample is delivered once and in order. Bounded: SampleSplitter (threads, overflow treatment, late consumers) with real threads and the generator loop of SamplesBuffer.result.'),
 'C16': ('other', 'Proved: Cache.result for every caching mode x state of the file (absent, complete, incomplete, never completed, no file): the stream of the source; what is stored is complete and in order; csm, eva, eve and beamformer results for all modes x states give the value that is computed. Bounded: real files (pytables and h5py), interrupted runs, several objects per file.'),
 'C17': ('other', "Proved: block extraction with 1,2,4,8-fold overlap: exactly the windows that fit; RFFT for all scalings; IRFFT for one spectrum per block; fftfreq, freqs, num_samples. The DFT itself is scipy's (assumed). Bounded: round trips, Parseval."),
 'C18': ('other', 'Proved: AutoPowerSpectra and CrossPowerSpectra (full, upper, lower) products in documented order and scaling. Bounded: power spectral density, consistency with PowerSpectra.'),
 'C19': ('other', 'Proved: PointSource.result (stationary, loop or zeros before arrival, modular in the interpolation), the generators W/P/filtered noise, sine, usignal. Bounded: moving, dipole, line, spherical harmonic, convolved and mixed sources against closed formulas.'),
 'C20': ('other', 'Proved: synthetic for a single line (the first line not below the request), fractional octave bands and given limits: the sum over exactly f1 <= f < f2; BeamformerBase.integrate over ranges and lists; synthetic_ev, freq_range, indices, fftfreq. Bounded: barspectrum, narrow and empty bands, maps of the other classes.'),
 'C21': ('other', "Proved: the processors of C01. The filter recursion is scipy's (assumed), the state handling is proved. Bounded: TimeConvolve, filter coefficients (octave and weighting bands) against the standards' curves."),
 'C22': ('other', 'Proved: Trajectory (support points handed to the spline in order of time, without smoothing; degree; interval; location and derivatives of that curve; traj: item j at start + j step) for support sets of 2..7 points; trigger comparisons (level and edge, block borders); AngleTracker (support points are (peak, number); window contains the sample; angle and rpm of sample n; average rpm); rotation: sample i is rotated by its own angle for every block size. Assumed: scipy splines interpolate. Bounded: peak selection within hunks, the spatial interpolation methods, zero rotation.'),
 'C23': ('other', 'Proved: WriteH5.save and .result (no limit, limit, limit beyond the end): the file is new, has the rows in order, the sample rate, the precision asked for, and is closed; what is delivered is what is written; TimeSamples delivers the data array. Bounded: real round trips (float32/64, h5py and pytables, wav, XML geometry, csm import).'),
}
NA = {}
