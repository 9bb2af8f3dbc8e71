"""Frozen instance tables, confirmed by reading the code (one line of reason per exemption)."""

KIND_RANK = {'bool': 0, 'int': 1, 'float_narrow': 2, 'float': 3, 'complex_narrow': 4, 'complex': 5}

_BACK = 'reference back to the owner, re-established by the owner when the part is attached to it'
_HOOK = 'runtime callbacks are not part of an archived state'

# constructor parameters that are deliberately not part of an object's archived state: (defining class or *, parameter) -> reason
EXEMPT_PARAMS = {
    ('*', 'sample_hooks'): _HOOK,
    ('Isolation', 'device'): _BACK,
    ('Calibration', 'device'): _BACK,
    ('Calibration', 'physical_device'): _BACK,
    ('NoAntennaCalibration', 'device'): _BACK,
    ('GuardSection', 'frame'): _BACK,
    ('PilotSection', 'wave'): _BACK,
    ('SymbolSection', 'wave'): _BACK,
    ('GridSection', 'wave'): _BACK,
    ('Synchronization', 'waveform'): _BACK,
    ('ChannelEstimation', 'waveform'): _BACK,
    ('ChannelEqualization', 'waveform'): _BACK,
    ('SimulatedDevice', 'scenario'): _BACK,
    ('PhaseNoise', 'mother_node'): 'the random mother is re-established when the part is attached to its owner',
    ('QuadrigaChannel', 'interface'): 'process-wide handle to the external simulator',
    ('QuadrigaChannelRealization', 'interface'): 'process-wide handle to the external simulator',
    ('AntennaArrayState', 'global_pose'): 'never restored on its own: the restoring call is reported as an S01 finding',
    ('IdealChannelEstimation', 'channel'): 'not restorable at all: reported as an S01 finding',
    ('IdealChannelEstimation', 'transmitter'): 'not restorable at all: reported as an S01 finding',
    ('IdealChannelEstimation', 'receiver'): 'not restorable at all: reported as an S01 finding',
}

# archived fields whose value is re-derived or re-drawn on restoring
EXEMPT_FIELDS = {
    ('AntennaArrayState', 'pose'): 'never restored on its own: the restoring call is reported as an S01 finding',
    ('SparseSignal', 'num_streams'): 'derived from the restored blocks',
    ('RandomDelayChannel', 'delay_variable'): 'random variable placeholder, re-created from the restored seed',
    ('SingleTargetRadarChannel', 'target_range_variable'): 'random variable placeholder, re-created from the restored seed',
    ('SingleTargetRadarChannel', 'target_azimuth_variable'): 'random variable placeholder, re-created from the restored seed',
    ('SingleTargetRadarChannel', 'target_zenith_variable'): 'random variable placeholder, re-created from the restored seed',
    ('SingleTargetRadarChannel', 'target_velocity_variable'): 'random variable placeholder, re-created from the restored seed',
    ('SingleTargetRadarChannel', 'target_phase_variable'): 'random variable placeholder, re-created from the restored seed',
}

# concrete only in the letter: bases without behaviour of their own, never instantiated by the package, or bound to an absent dependency
EXEMPT_TYPES = {
    'ConsistentVariable': 'base of the consistent variables, never instantiated',
    'DSPResult': 'base of the layer results, never instantiated',
    'Moveable': 'mix-in of the simulated objects, never instantiated',
    'SingleCarrierChannelEstimation': 'base, never instantiated',
    'SingleCarrierChannelEqualization': 'base, never instantiated',
    'IdealChannelEstimation': 'base of the ideal estimators, never instantiated',
    'SionnaRTChannel': 'needs the optional sionna dependency and is therefore not imported by the package',
    'SionnaRTChannelRealization': 'needs the optional sionna dependency and is therefore not imported by the package',
}

# restored as another type with the same behaviour
TYPE_ALIAS = {
    ('MappedPilotSymbolSequence', 'CustomPilotSymbolSequence'): 'the mapped symbols are archived, the mapping they came from is not needed to reproduce them',
}

# widest element family each array field is restored with on the reference tree
DTYPE = {
    'AntennaArrayState/pose': 'float',
    'AudioAntenna/pose': 'float',
    'AudioDevice/playback_channels': 'int',
    'AudioDevice/record_channels': 'int',
    'AudioDeviceAntennas/pose': 'float',
    'BeamformingReceiver/selected_receive_ports': 'int',
    'CDLRealization/angle_coupling_indices': 'int',
    'CFARDetector/num_guard_cells': 'int',
    'CFARDetector/num_training_cells': 'int',
    'ChannelStateInformation/state': 'complex',
    'ClusterDelayLineRealizationParameters/angle_coupling_indices': 'int',
    'ClusterDelayLineRealizationParameters/azimuth_spread_sign': 'int',
    'ClusterDelayLineRealizationParameters/large_scale_parameters': 'float',
    'ClusterDelayLineRealizationParameters/zenith_spread_sign': 'int',
    'CommunicationReceptionFrame/decoded_bits': 'int',
    'CommunicationReceptionFrame/encoded_bits': 'int',
    'CommunicationTransmissionFrame/bits': 'int',
    'CommunicationTransmissionFrame/encoded_bits': 'int',
    'ConsistentBoolean/shape': 'int',
    'ConsistentGaussian/shape': 'int',
    'ConsistentUniform/shape': 'int',
    'ConsistentVariable/shape': 'int',
    'CoordinateFocus/direction': 'float',
    'CustomAntennaArray/pose': 'float',
    'CustomAntennaCorrelation/covariance_matrix': 'complex',
    'CustomPilotSymbolSequence/pilot_symbols': 'complex',
    'CustomPowerAmplifier/gain': 'float',
    'CustomPowerAmplifier/input': 'float',
    'CustomPowerAmplifier/phase': 'float',
    'Dipole/pose': 'float',
    'DualConsistentRealization/frequencies': 'float',
    'DualConsistentRealization/phases': 'float',
    'IdealAntenna/pose': 'float',
    'ImpedanceCoupling/matching_impedance': 'float',
    'ImpedanceCoupling/receive_correlation': 'float',
    'ImpedanceCoupling/receive_impedance': 'float',
    'ImpedanceCoupling/transmit_correlation': 'float',
    'ImpedanceCoupling/transmit_impedance': 'float',
    'LinearAntenna/pose': 'float',
    'MappedPilotSymbolSequence/pilot_symbols': 'complex',
    'MatchedFilterJcas/selected_receive_ports': 'int',
    'MatchedFilterJcas/selected_transmit_ports': 'int',
    'MemoryCTPolynomialPowerAmplifier/coeff_matrix': 'complex',
    'MemoryPolynomialPowerAmplifier/coeff_matrix': 'complex',
    'MultipathFadingChannel/delays': 'float',
    'MultipathFadingChannel/power_profile': 'float',
    'MultipathFadingChannel/rice_factors': 'float',
    'MultipathFadingRealization/delay_profile': 'float',
    'MultipathFadingRealization/los_gains': 'float',
    'MultipathFadingRealization/nlos_gains': 'float',
    'MultipathFadingRealization/power_profile': 'float',
    'PatchAntenna/pose': 'float',
    'PointDetection/position': 'float',
    'PointDetection/velocity': 'float',
    'PskQamMapping/mapping': 'complex',
    'Radar/selected_receive_ports': 'int',
    'Radar/selected_transmit_ports': 'int',
    'RadarCube/angle_bins': 'float',
    'RadarCube/data': 'float',
    'RadarCube/doppler_bins': 'float',
    'RadarCube/range_bins': 'float',
    'RadarTargetPath/position': 'float',
    'RadarTargetPath/velocity': 'float',
    'ScalarAntennaCalibration/receive_correction_weights': 'complex',
    'ScalarAntennaCalibration/transmit_correction_weights': 'complex',
    'SelectiveLeakage/leakage_response': 'complex',
    'SelectiveLeakageCalibration/leakage_response': 'complex',
    'SidelobeEvaluator/codebook': 'complex',
    'SignalBlock/samples': 'complex',
    'SignalReceiver/selected_receive_ports': 'int',
    'SilentTransmitter/selected_transmit_ports': 'int',
    'SimulatedCustomArray/pose': 'float',
    'SimulatedDipole/pose': 'float',
    'SimulatedIdealAntenna/pose': 'float',
    'SimulatedLinearAntenna/pose': 'float',
    'SimulatedPatchAntenna/pose': 'float',
    'SimulatedUniformArray/dimensions': 'int',
    'SimulatedUniformArray/pose': 'float',
    'SingleTargetRadarChannel/target_velocity': 'float',
    'SingleTargetRadarChannelRealization/target_velocity': 'float',
    'SpecificIsolation/isolation': 'float',
    'SphericalFocus/angles': 'float',
    'StatedSymbols/states': 'complex',
    'StatedSymbols/symbols': 'complex',
    'StaticConsistentRealization/scalar_samples': 'float',
    'StaticTrajectory/velocity': 'float',
    'SymbolSection/pattern': 'int',
    'Symbols/symbols': 'complex',
    'Transformable/pose': 'float',
    'Transformation/matrix': 'float',
    'TransmittingModem/selected_transmit_ports': 'int',
    'UniformArray/dimensions': 'int',
    'UniformArray/pose': 'float',
    'UniformPilotSymbolSequence/pilot_symbol': 'complex',
    'UsrpAntennas/pose': 'float',
    'UsrpDevice/noise_power': 'float',
    'UsrpDevice/selected_receive_ports': 'int',
    'UsrpDevice/selected_transmit_ports': 'int',
}
