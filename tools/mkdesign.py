head = open('/verif/DESIGN.md').read().split('### What the verifier does, precisely')[0].split('## Properties')[0]
extra = '''
### What the verifier does, precisely

* **Source.** `pyvc/source.py` parses the files of `/repo/acoular` anew on every run.  A function is taken by its
  qualified name; the extraction drops docstrings and decorators (`@njit`, `@cached_property`, `@property_depends_on`)
  and nothing else.  Properties, delegates (`Delegate('source')`), defaults of traits, inherited methods and helper
  functions are resolved through the real class bodies, so a change of any of them is seen.
* **Execution.** Strongest-postcondition execution over symbolic sizes, indices and reals; `numba.guvectorize` layouts
  are respected.  Branches on undecided conditions fork (outside loops) or merge into `ite` terms (inside loops).
* **Loops.** No loop over a symbolic range is unrolled.  An invariant is inferred (unchanged, linear, sum, point write,
  last value, merged) or proposed by the contract (`e.hints`), and is then *checked* as two obligations (holds initially,
  is preserved).  A state without a closed form is havocked; what is then shown are step relations
  (e.g. DAMAS).  `while` loops give partial correctness: termination is not proved.  Loops left by `break` are K completed
  iterations plus one that breaks (`BreakLoop`).
* **Generators.** `yield` is an event; `t.stream` states the *block-stream contract*: every block but the last has exactly
  `num` rows, the last 1..num, and row r of the concatenation is the specified function of r, which does not mention
  `num`: this is C01 for that class, for every block size at once.  The same contract is what is assumed of the upstream
  `source` (modular: the caller is checked against the contract of the callee, not against its body).
* **Frame.** Arrays delivered by a source are owned by it; a write to one is an obligation that fails (C02).
* **Discharge.** Exact ring normal form over sums, products, inverses and indicator functions; what remains goes to z3,
  then cvc5.  Counter-models are evaluated in exact or float arithmetic; a "refuted" status needs a model in which the two
  sides differ and no over-approximated term (havocked state, filtered set, opaque call) occurs in the goal, and is not
  given behind a loop whose invariant is not established.  Everything else that fails is "undecided" and never an alarm.
* **Vacuity.** An item without obligations, without a feasible path or with an unsatisfiable precondition is reported as
  unsupported, not as proved.

### Assumed, not proved

* pyvc itself, z3, cvc5, CPython, numba's translation, traits' notification machinery (C03/C04 assume that a declared
  dependency invalidates; the dynamic oracle tests it).
* Real arithmetic for floats, mathematical integers, dtype casts as identity.
* numpy/scipy models in `pyvc/npmodel.py`.  Uninterpreted with stated laws: `rfft`/`irfft`, `eigh`, `inv`, `svd`,
  `sosfilt` (causal, per column, state continues the filter), `sosfiltfilt`, `tf2sos`, `resample`, `RandomState`
  (numbers depend on the seed and the calls before), `splprep`/`splev`/`splrep`, `searchsorted` on sorted arrays,
  `ConvexHull`/`Path` of sectors.
* Two opaque calls with equal arguments are equal; that different ones differ is never assumed.
* C16: the ghost cache file (nodes with rows and completion flag) for `H5cache`; `get_cache_file` returns the file of the
  object or none according to the mode.  C23: a file keeps the rows appended and the attributes set (pytables/h5py).
* C22: `_result_core_func` works sample by sample (bounded oracle).
* C03/C04 static analysis (`pyvc/frames.py`): the reads of a method are over-approximated; `EXEMPT` in
  `contracts/frames.py` lists state that is read and does not select the value, with the argument for each; `SAME` pairs
  a setting with its checksum; `ESCAPES` the calls to which `self` may be handed; `SKIP` methods that read or write files
  named by the caller.  `internal.digest` is assumed to be injective on what is declared (dynamic oracle of C03).
'''
P = {
'C01': ('other', '''Proved: the block-stream contract (row r is a function of r alone, all blocks but the last full, all rows
delivered) of TimeSamples, MaskedTimeSamples, MaskedTimeOut, Calib, ChannelMixer, Mixer, SourceMixer, TimePower, TimeCumAverage,
TimeReverse, Filter, FiltOctave, TimeExpAverage, FiltFreqWeight, FiltFiltOctave, OctaveFilterBank (1-3 bands), Average, PointSource
(modular), RFFT, IRFFT, AutoPowerSpectra, CrossPowerSpectra, WriteH5, SpatialInterpolator*, Cache, for every num, every signal
length and channel count.  Bounded: TimeConvolve, the moving and extended sources, the time beamformers, SampleSplitter, all classes in
random chains (each generator read with several block sizes and compared).  Not part of the property: CLEAN in the time domain
(works block by block by definition), IntegratorSectorTime with clip relative to the maximum of the block, the block size of the first
consumer of a SampleSplitter.'''),
'C02': ('other', '''Proved: no write to an array owned by the source, for every class with a stream contract (frame obligations) and for
the spectra.  Bounded: all generators and cached quantities: copies taken before, compared after reading every output, blocks held while
the next ones are made (blocks are not overwritten).'''),
'C03': ('other', '''Static, all classes: the settings that the outputs of a class read (over-approximated from the AST, through parts,
properties and helpers) are contained in what its digest depends on; and what others read of a part is in the digest of that part.  Bounded:
dynamic oracle changes every trait of every class (and items of lists and dictionaries) and requires a new identifier exactly when an output
changes, the same identifier for equal objects in another process, and separation of neighbouring values and of the borders between settings.'''),
'C04': ('other', '''Static, all classes: every cached quantity declares (depends_on, or via the digest of a part) what its getter reads, and
LazyBfResult.__getitem__ is proved to compute each requested row before it is handed out.  Bounded: dynamic oracle: read everything, change
one setting (assignment or in-place change of a list or dictionary), read again, compare with a fresh object of the same settings.'''),
'C05': ('proof', '''Proved: calcCSM adds the outer product of the block spectra into the upper triangle; PowerSpectra.calc_csm =
2/(bs |w|^2 B) sum over the B windows of conj-outer-products, Hermitian, with or without windows and overlaps; num_blocks for signals of
complete blocks; fftfreq; calc_ev.  Bounded: real signals incl. incomplete blocks, precision, imported matrices.'''),
'C06': ('proof', '''Proved: beamformerFreq for all formulations (classic, inverse, true level, true location, custom) x with/without
diagonal x CSM or eigenvalue form equals the quadratic form of the documented steering vector; BeamformerBase._calc, Eig, Capon, Music,
Functional (normalisation, clipping, only requested rows written).  Bounded: the classes end to end, the remaining beamformers.'''),
'C07': ('proof', '''Proved: calcTransfer, _steer_I.._IV, SteeringVector.transfer and steer_vector for all/one/several grid points against
the closed formulas, the unit-gain / norm statements of each formulation, r0, rm.  Bounded: end-to-end comparison.'''),
'C08': ('proof', '''Proved: calcPointSpreadFunction for all formulations = |steer^H transfer|^2 of the unit source, _psf_call (wave number,
columns), calc_psf in single/block/full mode (column i is the PSF of grid point i; flag set; every missing point), psf without cache.
Bounded: with caches, changes of grid, float32.'''),
'C09': ('proof', '''Proved: damasSolverGaussSeidel (each step is the documented relaxed projected update of one entry; solution stays
non-negative) and BeamformerDamas._calc around it.  Bounded: DAMAS+ (NNLS, LASSO ..), CLEAN, CLEAN-SC, orthogonal, CMF, SODIX, GIB against
references written from the papers; non-negativity of all.'''),
'C10': ('other', '''Proved: kernels _delayandsum4, _delayandsum5 (linear interpolation at the delayed position; moving).  Bounded:
BeamformerTime, Sq, Traj, SqTraj, CLEAN-T against references that interpolate from the whole signal, over random geometry, weights,
trajectories, flow environments and block sizes.'''),
'C11': ('other', '''Proved: RectGrid, RectGrid3D: steps, size/shape/positions/lattice; index() of a point is the nearest lattice point and a
point outside is rejected; LineGrid.  Bounded: ImportGrid, MergeGrid, indices() of sectors, extend.'''),
'C12': ('other', '''Proved: contains() of RectSector, RectSector3D, CircSector, MultiSector (condition or nearest point, border), integrate()
and BeamformerBase.integrate = exact sums over the selection in 1-D and 2-D for sectors and index ranges, with and without frequency
range.  Bounded: polygon and convex sectors, MetricEvaluator, IntegratorSectorTime, additivity over random partitions.'''),
'C13': ('other', '''Proved: MaskedTimeSamples, MaskedTimeOut, Calib, MicGeom: channels, num_samples, pos/num_mics and streams hold exactly
the items that are not excluded, in order, and calibration factors stay aligned.  Bounded: duplicates, out-of-range entries, combinations,
beamforming with exclusions equals beamforming of the reduced array.'''),
'C14': ('other', '''Proved: dist_mat, Environment._r, UniformFlowEnvironment._r (closed convected length), flow profiles of OpenJet, SlotJet,
RotatingFlow and that the second value is the Jacobian of the first.  Not within reach: the ODE integration of GeneralFlowEnvironment (scipy
ode, Delaunay interpolation): bounded against rays integrated with an independent solver, uniform-flow limit.'''),
'C15': ('other', '''Proved: SamplesBuffer: level, write, increase, read in the three modes, creation: with the representation invariant
(unread samples = last level rows of the buffer) every sample is delivered once and in order.  Bounded: SampleSplitter (threads,
overflow treatment, late consumers) with real threads and the generator loop of SamplesBuffer.result.'''),
'C16': ('other', '''Proved: Cache.result for every caching mode x state of the file (absent, complete, incomplete, never completed, no
file): the stream of the source; what is stored is complete and in order; csm, eva, eve and beamformer results for all modes x states give
the value that is computed.  Bounded: real files (pytables and h5py), interrupted runs, several objects per file.'''),
'C17': ('other', '''Proved: block extraction with 1,2,4,8-fold overlap: exactly the windows that fit; RFFT for all scalings; IRFFT for one
spectrum per block; fftfreq, freqs, num_samples.  The DFT itself is scipy's (assumed).  Bounded: round trips, Parseval.'''),
'C18': ('other', '''Proved: AutoPowerSpectra and CrossPowerSpectra (full, upper, lower) products in documented order and scaling.  Bounded:
power spectral density, consistency with PowerSpectra.'''),
'C19': ('other', '''Proved: PointSource.result (stationary, loop or zeros before arrival, modular in the interpolation), the generators
W/P/filtered noise, sine, usignal.  Bounded: moving, dipole, line, spherical harmonic, convolved and mixed sources against closed formulas.'''),
'C20': ('other', '''Proved: synthetic for a single line (the first line not below the request), fractional octave bands and given limits: the sum
over exactly f1 <= f < f2; BeamformerBase.integrate over ranges and lists; synthetic_ev, freq_range, indices, fftfreq.  Bounded: barspectrum,
narrow and empty bands, maps of the other classes.'''),
'C21': ('other', '''Proved: the processors of C01.  The filter recursion is scipy's (assumed), the state handling is proved.  Bounded:
TimeConvolve, filter coefficients (octave and weighting bands) against the standards' curves.'''),
'C22': ('other', '''Proved: Trajectory (support points handed to the spline in order of time, without smoothing; degree; interval; location
and derivatives of that curve; traj: item j at start + j step) for support sets of 2..7 points; trigger comparisons (level and edge, block
borders); AngleTracker (support points are (peak, number); window contains the sample; angle and rpm of sample n; average rpm); rotation:
sample i is rotated by its own angle for every block size.  Assumed: scipy splines interpolate.  Bounded: peak selection within hunks, the
spatial interpolation methods, zero rotation.'''),
'C23': ('other', '''Proved: WriteH5.save and .result (no limit, limit, limit beyond the end): the file is new, has the rows in order, the sample
rate, the precision asked for, and is closed; what is delivered is what is written; TimeSamples delivers the data array.  Bounded: real
round trips (float32/64, h5py and pytables, wav, XML geometry, csm import).'''),
}
import json, glob, os, collections, subprocess
props = {p['id']: p for p in map(json.loads, open('/verif/properties.jsonl'))}
from itertools import groupby
out = head + extra + '\n## Properties\n\nCost: seconds per quick check (8 cores); thorough runs repeat the oracles with more rounds and sizes.  "other" = part proved for all inputs, part bounded.\n'
seeds = collections.defaultdict(list)
for d in sorted(glob.glob('/verif/seeded/*/meta.json')):
    m = json.load(open(d)); seeds[m['property']].append((os.path.basename(os.path.dirname(d)), m))
ev = {}
for i in P:
    f = f'/verif/evidence/{i}.json'
    if os.path.exists(f): ev[i] = json.load(open(f))
fixes = collections.defaultdict(list)
kf = json.load(open('/verif/known_findings.json'))
for f in kf['fixed']:
    a = f.split('property=')[1].split(' ', 2); fixes[a[0]].append(f'{a[2]} ({a[1]})')
for i, (lv, tx) in P.items():
    out += f"\n### {i} {props[i]['title']} [{lv}]\n\n{tx}\n"
    c = ev.get(i, {}).get('coverage', {})
    if c: out += f"\nObligations at the last run: {c.get('discharged')} of {c.get('obligations')} discharged; {len(c.get('functions_under_contract', []))} functions under contract.\n"
    if seeds[i]: out += 'Planted: ' + '; '.join(f'`{n}` ({m["what_it_breaks"]})' for n, m in seeds[i]) + '.\n'
out += '''
## Planted bugs

All patches in `seeded/` survive the test suite, and are caught by the check of their property (`tools` of the sandbox ran every one; see
the property sections for what each breaks).  A named obligation is refuted by c04-trajectory-items, c06-eig-neg, c12-multi-nearest,
c14-rotation-centre, c15-buffer-again, c22-spline-degree and c23-precision (the bounded run of the same property supplies the failing
input).  For the others the contract is left undischarged (the changed code has no model within the verifier's reach that is certain
enough to be called refuted) or there is no contract on that function, and the bounded run raises the alarm.
Batches of further mutants (about 170 in all, not kept) were used to strengthen the oracles; those not caught
are equivalent or outside the property (tolerances, messages, dead code).

## Defects found in acoular

%d repaired (one `fix:` commit each; the list is in `known_findings.json`):

''' % len(kf['fixed'])
for i in sorted(fixes): out += f'* {i}: ' + '; '.join(fixes[i]) + '\n'
out += '\nRecorded, not repaired (known findings, printed as KNOWN-FINDING on every run):\n\n'
for f in kf['findings']: out += f"* {f['property']} `{f['key']}`: {f['what']}\n"
out += '''
Seen, outside the listed properties or not decided (no check reports them, and none was loosened for them): BeamformerTimeTraj divides by
the speed of the trajectory (undefined at rest when conv_amp is used); BeamformerGIB uses an integer start value for its epsilon when given
as range; WriteWAV of a silent signal divides by its maximum; Cache with two consumers interleaved while the file is being written;
MovingPointSourceDipole uses one emission time for both poles; radial-basis interpolation on a ring is not periodic.

## False alarms met and what was done

* C01: block-size independence does not hold for CLEAN-T and for clipping relative to the block maximum by definition: the property was narrowed.
* C04: traits notifies item changes of lists that are named with `[]` or in a list of several names: the reads-clauses follow that.
* C09: CLEAN-type methods may keep small negative residues by definition where documented: the property speaks of sources.
* Refutations that use an over-approximated loop state, a filtered index set or different opaque calls are undecided, never alarms.
* Refactorings tried against the checks (helper extracted, loops rewritten, statements reordered, renamed variables): quiet; an
  implementation outside the subset makes an item "unsupported", which is recorded in the evidence and left to the oracle.
'''
open('/verif/DESIGN.md', 'w').write(out)
cl = "TECH = " + repr(None)
s = open('/verif/tools/claims.py').read().split('CLAIMS = {')[0]
import textwrap
notes = {i: (lv, ' '.join(tx.split())) for i, (lv, tx) in P.items()}
s += 'CLAIMS = {\n' + ''.join(f' {i!r}: ({lv!r}, {tx!r}),\n' for i, (lv, tx) in notes.items()) + '}\nNA = {}\n'
open('/verif/tools/claims.py', 'w').write(s)
