"""Parameters reviewed not to influence an implementation: the model is independent of them by design
(a static trajectory does not depend on time, a stub does nothing, a normalized filter does not depend on the bandwidth, ...).
(method, parameter) -> classes."""
UNUSED = {
    ('Deserialize', 'process'): ['AWGN', 'Alamouti', 'ChannelEqualization', 'ChannelEstimation', 'ConventionalBeamformer', 'FrameGeneratorStub', 'Ganesan', 'IQCombiner', 'IQSplitter', 'MaxDetector', 'MaximumRatioCombining', 'NoAntennaCalibration', 'NoDelayCalibration', 'NoLeakageCalibration', 'NoPhaseNoise', 'NullSteeringBeamformer', 'PerfectCoupling', 'PerfectIsolation', 'RandomTrigger', 'Scrambler3GPP', 'Scrambler80211a', 'SingleCarrier', 'StaticTrigger', 'Synchronization'],
    ('__generate_sample', 'sample_index'): ['HardwareLoop'],
    ('__sigint_handler', 'frame'): ['HardwareLoop'],
    ('__sigint_handler', 'signum'): ['HardwareLoop'],
    ('_antialiasing_filter', 'bandwidth'): ['RFBlock'],
    ('_aoa_spread_mean', 'carrier_frequency'): ['RuralMacrocellsRealization'],
    ('_aoa_spread_std', 'carrier_frequency'): ['RuralMacrocellsRealization', 'UrbanMacrocellsRealization'],
    ('_aod_spread_mean', 'carrier_frequency'): ['IndoorFactoryRealization', 'IndoorOfficeRealization', 'RuralMacrocellsRealization'],
    ('_aod_spread_std', 'carrier_frequency'): ['IndoorFactoryRealization', 'IndoorOfficeRealization', 'RuralMacrocellsRealization', 'UrbanMacrocellsRealization'],
    ('_cluster_aoa_spread', 'state'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization'],
    ('_cluster_aod_spread', 'state'): ['IndoorFactoryRealization', 'IndoorOfficeRealization', 'RuralMacrocellsRealization'],
    ('_cluster_delay_spread', 'carrier_frequency'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization', 'UrbanMicrocellsRealization'],
    ('_cluster_delay_spread', 'state'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization'],
    ('_cluster_shadowing_std', 'state'): ['RuralMacrocellsRealization'],
    ('_cluster_zoa_spread', 'state'): ['IndoorFactoryRealization', 'IndoorOfficeRealization', 'RuralMacrocellsRealization'],
    ('_correct_sample_offset', 'oversampling_factor'): ['OCDMWaveform'],
    ('_correct_sample_offset', 'sample_offset'): ['OCDMWaveform'],
    ('_cross_polarization_power_std', 'state'): ['IndoorFactoryRealization', 'IndoorOfficeRealization'],
    ('_csi', 'delay'): ['IdealChannelEstimation'],
    ('_delay_spread_mean', 'carrier_frequency'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization'],
    ('_delay_spread_std', 'carrier_frequency'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization', 'UrbanMacrocellsRealization'],
    ('_deserialize_object', 'expected_type'): ['HDFDeserializationProcess'],
    ('_handle_exception', 'exception'): ['Executable'],
    ('_init_pbch_resource', 'num_subcarriers'): ['NRSlot'],
    ('_initial_plot', 'sample'): ['DSPReceptionPlot', 'DSPTransmissionPlot', 'EyePlot', 'RadarRangePlot', 'RadarRangeVelocityPlot', 'ReceivedConstellationPlot', 'TransmittedConstellationPlot'],
    ('_num_clusters', 'state'): ['IndoorFactoryRealization'],
    ('_pilot_sequence', 'num_symbols'): ['PSS', 'SSS', 'SchmidlCoxPilotSection'],
    ('_propagate', 'input'): ['RampGenerator'],
    ('_propagate', 'realization'): ['ADC', 'DAC', 'PowerAmplifier', 'Shift', 'Split', 'Sum', 'X4'],
    ('_receive', 'state'): ['PerfectCoupling', 'SignalReceiver'],
    ('_reciprocal_sample', 'sample'): ['IdealChannelRealization', 'QuadrigaChannelRealization', 'SionnaRTChannelRealization'],
    ('_transmit', 'duration'): ['Radar', 'SignalTransmitter'],
    ('_transmit', 'state'): ['PerfectCoupling'],
    ('_update_plot', 'sample'): ['DSPReceptionPlot', 'DSPTransmissionPlot', 'EyePlot', 'RadarRangePlot', 'RadarRangeVelocityPlot', 'ReceivedConstellationPlot', 'TransmittedConstellationPlot'],
    ('_zoa_spread_mean', 'carrier_frequency'): ['RuralMacrocellsRealization'],
    ('_zoa_spread_std', 'carrier_frequency'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization', 'UrbanMacrocellsRealization'],
    ('_zod_offset', 'parameters'): ['IndoorFactoryRealization', 'IndoorOfficeRealization'],
    ('_zod_offset', 'state'): ['IndoorFactoryRealization', 'IndoorOfficeRealization'],
    ('_zod_spread_mean', 'parameters'): ['IndoorFactoryRealization'],
    ('_zod_spread_std', 'parameters'): ['IndoorFactoryRealization', 'RuralMacrocellsRealization', 'UrbanMacrocellsRealization', 'UrbanMicrocellsRealization'],
    ('_zod_spread_std', 'state'): ['UrbanMicrocellsRealization'],
    ('add_artifact', 'compute_confidence'): ['ExtractedSignals', 'RocEvaluationResult', 'RootMeanSquareErrorResult'],
    ('copy', 'order'): ['DenseSignal', 'RFSignal'],
    ('decode_streams', 'device'): ['IQCombiner'],
    ('decode_streams', 'num_output_streams'): ['ReceiveBeamformer'],
    ('decode_symbols', 'num_output_streams'): ['Alamouti', 'DFT', 'Ganesan', 'MaximumRatioCombining', 'SingleCarrier'],
    ('demodulate', 'bandwidth'): ['FMCWWaveform', 'FilteredSingleCarrierWaveform'],
    ('encode_streams', 'device'): ['IQSplitter'],
    ('encode_symbols', 'num_output_streams'): ['DFT', 'Ganesan'],
    ('estimate', 'state'): ['TIXWR1843'],
    ('estimate_channel', 'bandwidth'): ['ChannelEstimation', 'OrthogonalLeastSquaresChannelEstimation', 'SingleCarrierLeastSquaresChannelEstimation'],
    ('estimate_channel', 'delay'): ['ChannelEstimation', 'OrthogonalLeastSquaresChannelEstimation', 'SingleCarrierLeastSquaresChannelEstimation'],
    ('estimate_channel', 'oversampling_factor'): ['ChannelEstimation', 'OrthogonalLeastSquaresChannelEstimation', 'SingleCarrierLeastSquaresChannelEstimation'],
    ('estimate_gain', 'input_signal'): ['Gain'],
    ('frame_duration', 'bandwidth'): ['ChirpFSKWaveform', 'FMCW', 'TIXWR1843'],
    ('get_power', 'bandwidth'): ['SNR'],
    ('local_characteristics', 'azimuth'): ['AudioAntenna', 'Dipole', 'IdealAntenna', 'LinearAntenna'],
    ('local_characteristics', 'elevation'): ['AudioAntenna', 'IdealAntenna'],
    ('local_characteristics', 'zenith'): ['LinearAntenna'],
    ('max_range', 'bandwidth'): ['TIXWR1843'],
    ('modulate', 'bandwidth'): ['FMCWWaveform', 'FilteredSingleCarrierWaveform'],
    ('num_receive_output_streams', 'num_input_streams'): ['CaponBeamformer', 'ConventionalBeamformer', 'MaximumRatioCombining', 'NullSteeringBeamformer', 'SingleCarrier'],
    ('num_samples', 'bandwidth'): ['PilotSection', 'SymbolSection'],
    ('num_transmit_input_streams', 'num_output_streams'): ['ConventionalBeamformer', 'NullSteeringBeamformer'],
    ('pick_samples', 'bandwidth'): ['GuardSection', 'PilotSection', 'SymbolSection'],
    ('pick_samples', 'oversampling_factor'): ['PilotSection'],
    ('pick_samples', 'signal'): ['GuardSection'],
    ('place_samples', 'bandwidth'): ['PilotSection'],
    ('place_samples', 'oversampling_factor'): ['PilotSection'],
    ('place_samples', 'signal'): ['GuardSection'],
    ('place_symbols', 'reference_symbols'): ['PilotSection'],
    ('realize', 'bandwidth'): ['NoPhaseNoise', 'OscillatorPhaseNoise'],
    ('realize', 'carrier_frequency'): ['ADC', 'DAC', 'HPF', 'Mixer', 'PowerAmplifier', 'RampGenerator', 'Shift', 'Split', 'Sum', 'X4'],
    ('realize', 'oversampling_factor'): ['NoPhaseNoise', 'OscillatorPhaseNoise'],
    ('realize', 'rng'): ['SampleOffsetTrigger', 'StaticTrigger', 'TimeOffsetTrigger'],
    ('remove_leakage', 'transmitted_signal'): ['NoLeakageCalibration'],
    ('sample', 'position_a'): ['StaticConsistentRealization'],
    ('sample', 'position_b'): ['StaticConsistentRealization'],
    ('sample_covariance', 'antennas'): ['StandardAntennaCorrelation'],
    ('sample_orientation', 'timestamp'): ['BITrajectoryB', 'StaticTrajectory'],
    ('sample_translation', 'timestamp'): ['StaticTrajectory'],
    ('sample_velocity', 'timestamp'): ['StaticTrajectory'],
    ('samples_per_frame', 'bandwidth'): ['FMCWWaveform', 'FilteredSingleCarrierWaveform', 'SignalReceiver'],
    ('samples_per_frame', 'oversampling_factor'): ['SignalReceiver'],
    ('serialize', 'process'): ['AWGN', 'FrameGeneratorStub', 'IQCombiner', 'IQSplitter', 'NoPhaseNoise', 'NullSteeringBeamformer', 'PerfectCoupling', 'PerfectIsolation', 'RandomTrigger', 'Scrambler3GPP', 'Scrambler80211a', 'StaticTrigger'],
    ('set_base', 'base'): ['TransformableBase'],
    ('spherical_angles', 'device'): ['SphericalFocus'],
    ('state', 'max_num_taps'): ['IdealChannelSample'],
    ('symbol_energy', 'bandwidth'): ['FMCWWaveform', 'FilteredSingleCarrierWaveform', 'OrthogonalWaveform', 'RectangularWaveform'],
}
