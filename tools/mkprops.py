import json
def P(id,title,statement,over,qtext,why,files,mech,state=None,observe=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=qtext),why_tests_cant=why,
      anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech]))
    if state: d['anchors']['state']=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    if observe: d['anchors']['observe_at']=observe
    return d
A='acoular/'
props=[
P('C01','Streamed output does not depend on the requested block size',
 'For every element of a time-domain processing chain, the concatenation of the blocks it delivers is one fixed sample sequence, the same for every requested block size. Every delivered block is non-empty and has exactly the requested number of rows, except that the last one may be shorter. The total number of rows and the number of columns equal what the element announces.',
 ['inputs','configurations'],'all signals, all lengths (also shorter than one block or not a multiple of it), all block sizes >= 1, all settings of the element',
 'The suite compares a few stored results at one or two block sizes; most of those need a data file that is absent here. The property ranges over all pairs (signal length, block size) and over the carried state between blocks.',
 [A+'sources.py',A+'tprocess.py',A+'process.py',A+'base.py'],
 [('TimeSamples.result / MaskedTimeSamples.result',A+'sources.py'),('MaskedTimeOut, ChannelMixer, TimePower, TimeCumAverage, TimeReverse, Filter, Calib, Mixer, TimeConvolve',A+'tprocess.py'),('Average, SamplesBuffer',A+'process.py')],
 [('loop-carried filter/accumulator state','what one block hands to the next',A+'tprocess.py')],['blocks yielded by result(num)']),
P('C02','Reading an output never alters the data it is computed from',
 'Producing the output of a source, processor or beamformer never changes the samples, spectra or arrays of the objects upstream of it, nor arrays handed to it by the user. Producing the same output a second time therefore gives the same values, and two consumers of the same object do not influence each other.',
 ['inputs','histories','configurations'],'all upstream data and settings, all sequences of reads, any number of consumers of one object',
 'Tests build a fresh object per case and look at the output once; an in-place write to a view of upstream memory is invisible there. The property is about every sequence of reads.',
 [A+'sources.py',A+'tprocess.py',A+'process.py',A+'tbeamform.py',A+'fbeamform.py',A+'spectra.py',A+'calib.py'],
 [('blocks are views of upstream arrays; processors must write only to arrays they own',A+'sources.py'),('beamformers copy the CSM before modifying its diagonal',A+'fbeamform.py')]),
P('C03','Two different computations never share an identifier',
 'The identifier under which an object\'s results are cached depends on every setting of the object and of the objects it uses that can influence its output. Changing any such setting changes the identifier, and setting it back restores it.',
 ['configurations','histories'],'all classes with an identifier, every public setting (also of nested objects), arrays of any size, any order of changes',
 'Tests check that an identifier exists for each class, not that it covers every influencing setting; the space of settings times nested objects is unbounded. A gap shows only as a silently wrong cached result.',
 [A+'internal.py',A+'sources.py',A+'tprocess.py',A+'process.py',A+'spectra.py',A+'fbeamform.py',A+'tbeamform.py',A+'grids.py',A+'microphones.py',A+'environments.py',A+'signals.py',A+'calib.py',A+'trajectory.py'],
 [('digest() over depends_on of the digest trait',A+'internal.py'),('depends_on lists of each class',A+'fbeamform.py')]),
P('C04','Derived quantities never go stale',
 'Every quantity an object derives from its settings (positions, sizes, distances, steering vectors, spectra, beamforming results, announced sample counts, ...) always equals what a freshly built object with the same current settings reports. No order of reading and changing settings can make an outdated value visible.',
 ['histories','configurations'],'all sequences of setting changes and reads on all derived quantities',
 'Staleness needs a read, then a change of one particular setting, then a second read; tests read each quantity once per object.',
 [A+'grids.py',A+'environments.py',A+'fbeamform.py',A+'spectra.py',A+'sources.py',A+'signals.py',A+'microphones.py',A+'trajectory.py'],
 [('cached properties with declared dependencies (property_depends_on / depends_on)',A+'grids.py')]),
P('C05','The cross-spectral matrix is the mean of windowed-block outer products',
 'For every frequency line the cross-spectral matrix equals the average over all (overlapping) blocks of the outer product of the windowed block spectra with their conjugates, scaled by the window power and to one-sided amplitude. It is Hermitian with real non-negative diagonal, and its eigendecomposition reproduces it.',
 ['inputs','configurations'],'all signals, channel counts, block sizes, window types, overlaps and precisions',
 'Stored regression values cover one recording; the recording is missing here, so the current suite does not execute the computation at all.',
 [A+'fastFuncs.py',A+'spectra.py'],
 [('calcCSM',A+'fastFuncs.py'),('PowerSpectra.calc_csm',A+'spectra.py'),('PowerSpectra._get_source_data',A+'spectra.py')],None,['PowerSpectra.csm','PowerSpectra.eva/eve']),
P('C06','Frequency-domain beamformer output equals the documented quadratic form',
 'For every frequency, grid point, cross-spectral matrix and steering-vector formulation, the conventional beamformer output equals the real quadratic form of the steering vector and the cross-spectral matrix, without the main diagonal and with the documented normalisation when diagonal removal is selected, and divided by the steering-vector norm when that is selected. The result does not depend on whether the matrix or its eigen-components are used, nor on whether steering vectors are precomputed.',
 ['inputs','configurations'],'all Hermitian matrices, transfer vectors, numbers of microphones and grid points, all four formulations, diagonal removal on/off, eigenvalue ranges',
 'A handful of random matrices compared against the same code path; equality for all sizes and all inputs is a statement about two nested loops.',
 [A+'fastFuncs.py',A+'fbeamform.py'],
 [('_freqBeamformer_* kernels',A+'fastFuncs.py'),('beamformerFreq dispatch',A+'fastFuncs.py'),('BeamformerBase/Functional/Capon/Eig/Music calc',A+'fbeamform.py')]),
P('C07','Steering vectors and transfer functions equal their published formulas',
 'The transfer function of every grid point to every microphone equals reference distance over distance times the phase delay of the path difference, and each of the four steering vectors equals its published closed form in terms of that transfer function. The formulations satisfy their defining normalisations for every geometry.',
 ['inputs','configurations'],'all geometries (distances > 0), frequencies, reference distances and the four formulations',
 'Tests evaluate a few geometries; the formulas must agree for all distances and sizes.',
 [A+'fastFuncs.py',A+'fbeamform.py',A+'tbeamform.py',A+'tfastfuncs.py'],
 [('calcTransfer',A+'fastFuncs.py'),('SteeringVector.transfer / steer_vector',A+'fbeamform.py'),('_steer_I.._steer_IV',A+'tfastfuncs.py')]),
P('C08','Point spread functions are the beamformed unit sources',
 'Every column of a point spread function equals the map that the same beamformer formulation yields for a unit source at the corresponding grid point, so a source\'s own grid point has response one. The values do not depend on whether they are computed one by one, blockwise or all at once, nor on which subset was requested first.',
 ['inputs','configurations','histories'],'all geometries, the four formulations, all index subsets and orders of requests, calculation modes',
 'Tests cover one small geometry per formulation; order-of-request histories are not exercised.',
 [A+'fastFuncs.py',A+'fbeamform.py'],
 [('_psf_Formulation*',A+'fastFuncs.py'),('PointSpreadFunction._get_psf / calc_psf',A+'fbeamform.py')]),
P('C09','Deconvolution solves its documented update and keeps sources non-negative',
 'The iterative deconvolution solvers return non-negative source strengths for every input. Each sweep of the Gauss-Seidel solver applies exactly the documented update with damping, leaves a fixed point unchanged, and the deconvolution beamformers never report negative source power.',
 ['inputs','configurations'],'all point-spread matrices with non-zero diagonal, all maps, iteration counts and damping values in (0,1]',
 'Non-negativity after every sweep for every matrix is an inductive statement over two nested loops; tests compare a few stored maps.',
 [A+'fastFuncs.py',A+'fbeamform.py'],
 [('damasSolverGaussSeidel',A+'fastFuncs.py'),('BeamformerDamas / DamasPlus / Clean / Cleansc',A+'fbeamform.py')]),
P('C10','Time-domain beamforming is delay-and-sum at the correct sample positions',
 'The time-domain beamformers output, for every grid point and sample, the weighted sum over microphones of the linearly interpolated microphone signals at the travel-time delay, and their squared or diagonal-removed variants follow the documented formulas. Interpolation indices always stay inside the buffered samples, and the output is the same for every block size.',
 ['inputs','configurations'],'all signals, delays, weights, numbers of microphones and grid points, block sizes',
 'The suite checks output shapes and a few sums; equality with delay-and-sum for all delays and block boundaries is not sampled.',
 [A+'tfastfuncs.py',A+'tbeamform.py',A+'process.py'],
 [('_delayandsum4/_delayandsum5/_delays/_modf',A+'tfastfuncs.py'),('BeamformerTime.result',A+'tbeamform.py')]),
P('C11','Grid sizes, shapes, positions and indices agree',
 'Every grid announces as many points as it has positions and its shape multiplies to that number. For regular grids the coordinate-to-index mapping is the inverse of the index-to-position mapping for every point inside the bounds, positions are exactly the documented lattice, and coordinates outside are rejected.',
 ['inputs','configurations'],'all extents, increments (positive), numbers of points, coordinates; all grid classes',
 'Tests use the default extents and a few fixed coordinates; the mapping must agree for every extent and increment.',
 [A+'grids.py'],
 [('RectGrid/RectGrid3D size, shape, positions, index',A+'grids.py'),('LineGrid, MergeGrid, ImportGrid',A+'grids.py')]),
P('C12','Sector membership and integration are exact and additive',
 'A point belongs to a sector exactly when it satisfies the sector\'s documented geometric condition, a union of sectors contains exactly the points of its members, and the integrated map over a sector is the sum of the map over the grid points in it. Integrating over disjoint sectors is additive and integrating the whole grid gives the total.',
 ['inputs','configurations'],'all sectors, points, grids and maps, border inclusion on/off',
 'Tests count points for one or two fixed sectors.',
 [A+'grids.py',A+'fbeamform.py'],
 [('RectSector/RectSector3D/CircSector/PolySector/ConvexSector/MultiSector.contains',A+'grids.py'),('integrate',A+'fbeamform.py')]),
P('C13','Excluded microphones and samples are excluded everywhere, consistently',
 'Marking microphones, channels or a sample range as excluded removes exactly those rows and columns and keeps all others in their original order. The announced counts, positions, calibration factors and data stay aligned for every exclusion list.',
 ['inputs','configurations'],'all exclusion lists, start/stop values (also open or negative), channel counts',
 'Tests use one or two exclusion lists; alignment for all lists is a statement about index arithmetic.',
 [A+'microphones.py',A+'sources.py',A+'tprocess.py',A+'calib.py'],
 [('MicGeom.pos / num_mics',A+'microphones.py'),('MaskedTimeSamples',A+'sources.py'),('MaskedTimeOut',A+'tprocess.py'),('Calib',A+'calib.py')]),
P('C14','Propagation distances follow the documented medium model',
 'Distances between grid and microphone positions are Euclidean in a quiescent medium, reduce to that value in uniform flow at zero speed, and in uniform flow equal the convected path length. They are non-negative, symmetric where the model is, invariant under translation, and the shape of the result is always (points, microphones).',
 ['inputs','configurations'],'all positions, flow directions and subsonic Mach numbers; all flow-field models for their field/Jacobian consistency',
 'Tests compare a few positions to stored values.',
 [A+'environments.py'],
 [('dist_mat, Environment._r, UniformFlowEnvironment._r',A+'environments.py'),('SlotJet/OpenJet/RotatingFlow.v',A+'environments.py'),('cartToCyl/cylToCart',A+'environments.py')]),
P('C15','Sample buffers and splitters deliver every sample once and in order',
 'A sample buffer delivers exactly the windows of the incoming stream that its settings describe, never losing, repeating or inventing samples. A splitter delivers the complete stream in order to each of its consumers, whatever the interleaving of their reads, within the configured buffer limits.',
 ['inputs','schedules','configurations'],'all streams, block sizes, buffer lengths and shifts; all interleavings of consumer reads at the granularity of one read',
 'Tests run a few block sizes and one thread interleaving per run.',
 [A+'base.py',A+'process.py'],
 [('SamplesBuffer.result',A+'process.py'),('SampleSplitter',A+'process.py')],
 [('ring buffer and index','samples kept for the next window',A+'process.py'),('block buffers per consumer','blocks not yet read',A+'process.py')]),
P('C16','Caching is transparent',
 'With result caching in any mode, every result read is equal to the freshly computed one. A cache file left incomplete by an interrupted run, or written for other settings, is never delivered as if it were the complete result for the current settings, and modes that forbid writing or reading are obeyed.',
 ['histories','configurations','crash_points'],'all caching modes, all sequences of runs including ones stopped after any block, all settings',
 'The caching tests need a data file that is absent here; interrupted runs are sampled at one point only.',
 [A+'process.py',A+'spectra.py',A+'fbeamform.py',A+'h5cache.py',A+'h5files.py',A+'configuration.py'],
 [('Cache.result',A+'process.py'),('PowerSpectra._get_filecache',A+'spectra.py'),('BeamformerBase._get_filecache / result',A+'fbeamform.py'),('PointSpreadFunction._get_filecache',A+'fbeamform.py')],None,['results read with each config.global_caching value']),
P('C17','Spectral blocks and their inverse are exact transforms',
 'The streamed spectra are the scaled discrete Fourier transforms of exactly the documented (overlapping, windowed) sample blocks, with announced frequency count, block count and frequency axis. The inverse transform of the unscaled, unwindowed forward transform restores the samples, and the selected scaling conserves amplitude or energy as documented.',
 ['inputs','configurations'],'all signals, block sizes, windows, overlaps, scalings and block requests',
 'Tests check one sine and Parseval for one noise signal.',
 [A+'fprocess.py',A+'base.py',A+'process.py'],
 [('RFFT.result, IRFFT.result',A+'fprocess.py'),('SpectraOut.fftfreq / num_freqs',A+'base.py')]),
P('C18','Auto- and cross-power spectra are the documented products',
 'The streamed auto- and cross-power spectra equal, for every block, frequency and channel pair, the product of one spectrum with the conjugate of the other, scaled as selected; averaging them over blocks reproduces the cross-spectral matrix. Only the documented channel pairs are delivered in the documented order.',
 ['inputs','configurations'],'all spectra, channel counts, scalings and triangle modes',
 'Tests compare one signal against the other implementation in default mode.',
 [A+'fprocess.py',A+'process.py',A+'spectra.py'],
 [('AutoPowerSpectra, CrossPowerSpectra, FFTSpectra',A+'fprocess.py'),('PowerSpectra',A+'spectra.py')]),
P('C19','Simulated sources radiate exactly the delayed, attenuated signal',
 'Every simulated source delivers at each microphone the source signal at the retarded time, attenuated with distance as documented, starting at the configured start times, and mixing several sources gives the sample-wise weighted sum. Signal generators deliver exactly the announced number of samples, depend only on their settings and seed, and scale with the requested level.',
 ['inputs','configurations'],'all geometries, signals, start times, seeds, weights and block sizes',
 'Tests check a few amplitudes and shapes for fixed positions.',
 [A+'sources.py',A+'signals.py'],
 [('PointSource.result, _fill_mic_signal_block',A+'sources.py'),('SourceMixer, MovingPointSource, PointSourceDipole, UncorrelatedNoiseSource',A+'sources.py'),('SineGenerator, WNoiseGenerator, GenericSignalGenerator',A+'signals.py')]),
P('C20','Band values are exact sums of the frequency lines in the band',
 'The value of a third-octave, octave or other band equals the sum over exactly the frequency lines inside the half-open band of the map or spectrum, so adjacent bands partition the lines and their values add up. Frequency ranges and indices select exactly the lines they describe, and a missing or out-of-range frequency is never silently replaced by wrong data.',
 ['inputs','configurations'],'all centre frequencies, band types, block sizes, sampling rates and lines present',
 'Tests evaluate one or two bands at one block size; edges falling on or between lines are not enumerated.',
 [A+'fbeamform.py',A+'spectra.py',A+'tools/helpers.py'],
 [('BeamformerBase.synthetic / integrate',A+'fbeamform.py'),('PowerSpectra index_low/high, ind_low/ind_high',A+'spectra.py'),('synthetic, barspectrum, bardata, return_result',A+'tools/helpers.py')]),
P('C21','Elementary time processors compute their documented function',
 'Squaring, averaging, cumulative averaging, reversing, channel mixing, masking, calibrating and filtering deliver, sample for sample, the documented function of the incoming signal for every input. Averages over complete blocks equal the arithmetic mean, reversing twice is the identity, and filtering a stream equals filtering the whole signal at once.',
 ['inputs','configurations'],'all signals, lengths, averaging lengths, weights, filter settings and block sizes',
 'Tests run a single signal per class and mostly check shapes.',
 [A+'tprocess.py',A+'process.py',A+'calib.py'],
 [('TimePower, TimeCumAverage, TimeReverse, ChannelMixer, Filter, FiltFiltOctave, TimeConvolve',A+'tprocess.py'),('Average',A+'process.py')]),
P('C22','Trajectories and rotation tracking reproduce their definitions',
 'A trajectory passes exactly through its support points at their times, its derivatives are the derivatives of the same curve, and sampled traversal yields location and velocity at consistent time steps. Trigger detection and angle tracking yield an angle that advances by one full turn per revolution, and virtual rotation by a zero angle leaves the signals unchanged.',
 ['inputs','configurations'],'all support points and time ranges; all trigger sequences and rotation settings',
 'Tests evaluate one spline and one trigger signal.',
 [A+'trajectory.py',A+'tprocess.py'],
 [('Trajectory.location / traj',A+'trajectory.py'),('Trigger, AngleTracker, SpatialInterpolator*',A+'tprocess.py')]),
P('C23','Data written to files reads back unchanged',
 'Samples, spectra and maps written to HDF5 files and read back are the same values in the same order with the same rate and shape, for every block size used while writing and either HDF5 library. Microphone geometries and grids exported to XML and imported again keep positions, order and labels.',
 ['inputs','configurations','histories'],'all data, block sizes, precisions, partial writes, repeated appends',
 'Tests write one signal at one block size.',
 [A+'h5files.py',A+'tprocess.py',A+'microphones.py',A+'grids.py',A+'sources.py'],
 [('WriteH5',A+'tprocess.py'),('H5FileH5py / H5FileTables append_data',A+'h5files.py'),('MicGeom.export_mpos, ImportGrid import',A+'microphones.py')]),
]
with open('/verif/properties.jsonl','w') as f:
    for p in props: f.write(json.dumps(p)+'\n')
import sys
sys.path.insert(0,'/x')
