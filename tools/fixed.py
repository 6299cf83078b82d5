#!/usr/bin/env python3
"""writes the "fixed" list of known_findings.json: one entry per fix commit in /repo (suppresses nothing)"""
import json, os, subprocess
BASE = '4558f54'
# properties of the fix commits, by the beginning of the message
P = {'freq_range with': 'C20', 'number of spectra announced by RFFT': 'C17', 'RFFT yields no': 'C17', 'power spectral density': 'C18', 'CrossPowerSpectra': 'C18', 'grid index of the last': 'C11',
 'LineGrid with a single': 'C11', 'shape of LineGrid': 'C11', 'positions of RectGrid follow': 'C04', 'RectSector3D': 'C12', 'in_hull': 'C12', 'PolySector': 'C12', 'sector integration of MetricEvaluator': 'C12',
 'a negative frequency': 'C06', 'scalar reference': 'C07', 'shape of the distances': 'C07', 'all missing points': 'C08', 'point spread function one': 'C08', 'cached point spread': 'C08', 'point spread function of all': 'C08',
 'points of a point spread': 'C16', 'identifier of PowerSpectraImport': 'C03', 'frequency range and indices': 'C20', 'integrate works': 'C20', 'CLEAN-SC': 'C09', 'travel times of GeneralFlow': 'C14',
 'identifiers distinguish': 'C03', 'Mixer does not': 'C02', 'blocks of MaskedTimeOut': 'C02', 'blocks of TimeReverse': 'C02', 'filter banks deliver': 'C21', 'filter coefficients': 'C04', 'derived quantities': 'C13',
 'identifier of Calib': 'C03', 'all channels or': 'C13', 'SpatialInterpolatorRotation reads': 'C22', 'spatial interpolation follows': 'C04', 'identifiers of spatial': 'C03', 'trigger edges': 'C22',
 'Mixer announces': 'C01', 'TimeConvolve convolves': 'C21', 'TimeConvolve announces': 'C01', 'WriteH5 delivers': 'C23', 'PointSource does': 'C19', 'blocks of point sources': 'C02', 'dipole and line': 'C01',
 'identifiers of sources': 'C03', 'line sources do not modify': 'C02', 'convective amplification': 'C19', 'UncorrelatedNoiseSource': 'C19', 'SourceMixer does': 'C02', 'identifier of time data': 'C03',
 'identifier of MaskedTimeSamples': 'C03', 'PointSourceConvolve': 'C01', 'line sources accept': 'C19', 'identifier of GenericSignal': 'C03', 'Average announces': 'C01', 'Cache accepts': 'C16',
 'SampleSplitter': 'C15', 'buffer size of SampleSplitter': 'C15', 'SamplesBuffer accepts': 'C15', 'blocks of SamplesBuffer': 'C15', 'SamplesBuffer delivers': 'C15', 'cache file of an': 'C16',
 'end time zero': 'C22', 'time beamformer does': 'C10', 'moving grid time beamformer': 'C10', 'reference position': 'C10', 'rotation angle': 'C22', 'virtual microphones': 'C22', 'start of data': 'C19',
 'moving line source': 'C19', 'spatial power weighting': 'C10', 'circle and polygon': 'C11', 'consumer of a SampleSplitter': 'C15', 'exported microphone': 'C23', 'point spread functions for grid indices': 'C16', 'readonly caching': 'C16', 'identifier of MergeGrid': 'C03', 'IntegratorSectorTime follows': 'C04', 'blocks of IntegratorSectorTime': 'C02', 'blocks of RFFT': 'C02', 'identifier of BeamformerDamasPlus': 'C03', 'identifier of SteeringVector for': 'C04', 'default values': 'C03', 'identifier of GeneralFlow': 'C03',
 'number of components': 'C04', 'time beamformers announce': 'C04', 'spatial interpolators announce': 'C04', 'filter banks announce': 'C04', 'gridless orthogonal': 'C04', 'eigenvalues of': 'C04',
 'identifier of WriteH5': 'C03', 'identifier of AngleTracker': 'C03', 'numbers of samples and channels': 'C04', 'cached and averaged spectra': 'C17', 'identifiers do not depend on the order': 'C03', 'cross-spectral matrix of a benchmark file': 'C04'}
try: P.update(json.load(open(os.path.join(os.path.dirname(os.path.abspath(__file__)), 'fixed_more.json'))))
except FileNotFoundError: pass
here = os.path.dirname(os.path.dirname(os.path.abspath(__file__)))
log = subprocess.check_output(['git', '-C', '/repo', 'log', '--reverse', '--format=%h %s', BASE + '..'], text=True).splitlines()
out = []
for l in log:
    h, m = l.split(' ', 1)
    if not m.startswith('fix: '): continue
    m = m[5:]
    k = [q for q in P if m.startswith(q)]
    assert k, 'no property for: ' + m
    k = max(k, key=len)
    out.append(f'fixed: property={P[k]} {h} {m}')
p = os.path.join(here, 'known_findings.json')
d = json.load(open(p)); d['fixed'] = out
json.dump(d, open(p, 'w'), indent=1); open(p, 'a').write('\n')
print(len(out), 'fixed')
