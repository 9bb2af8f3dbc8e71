From 82367d33822bfca0ff554ec8c98745cceb7d647f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:16 +0000
Subject: [PATCH 01/65] fix: restore the channel realizations of simulated
 drops from the field they are saved to

---
 hermespy/simulation/drop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/drop.py b/hermespy/simulation/drop.py
index 84750e5..7caa23e 100644
--- a/hermespy/simulation/drop.py
+++ b/hermespy/simulation/drop.py
@@ -59,7 +59,7 @@ class SimulatedDrop(Drop[SimulatedDeviceTransmission, SimulatedDeviceReception])
     def Deserialize(cls: Type[SimulatedDrop], process: DeserializationProcess) -> SimulatedDrop:
         drop = Drop.Deserialize(process)
         channel_realizations = process.deserialize_object_sequence(
-            "channel_realiations", ChannelRealization
+            "channel_realizations", ChannelRealization
         )
         return SimulatedDrop(
             drop.timestamp, drop.device_transmissions, channel_realizations, drop.device_receptions
-- 
2.43.0


From 75a9208213cbae7719c4bd8b40f96af00cc70018 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:30 +0000
Subject: [PATCH 02/65] fix: restore multipath fading realizations including
 fixed line of sight angles

---
 hermespy/channel/fading/fading.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index befbf8a..3bcd120 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -563,10 +563,17 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> MultipathFadingRealization:
+        # The line of sight angles are stored as an object unless they are fixed to a single value
+        los_angles_variable = process.deserialize_object(
+            "los_angles_variable", ConsistentUniform, None
+        )
+        if los_angles_variable is None:
+            los_angles_variable = process.deserialize_floating("los_angles_variable")
+
         return MultipathFadingRealization(
             process.deserialize_object("random_realization", ConsistentRealization),
             process.deserialize_object("antenna_correlation_variable", ConsistentUniform),
-            process.deserialize_object("los_angles_variable", ConsistentUniform),
+            los_angles_variable,
             process.deserialize_object("path_angles_variable", ConsistentUniform),
             process.deserialize_object("los_phases_variable", ConsistentUniform),
             process.deserialize_object("path_phases_variable", ConsistentUniform),
@@ -578,7 +585,7 @@ class MultipathFadingRealization(ChannelRealization[MultipathFadingSample]):
             process.deserialize_floating("nlos_doppler"),
             process.deserialize_object("antenna_correlation", AntennaCorrelation, None),
             set(),
-            **Channel._DeserializeParameters(process),  # type: ignore[arg-type]
+            **ChannelRealization._DeserializeParameters(process),  # type: ignore[arg-type]
         )
 
 
-- 
2.43.0


From 67987cbf061e47a21024bb0c25f3738329934b37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:50 +0000
Subject: [PATCH 03/65] fix: restore mode and pose of audio antennas from their
 respective fields

---
 hermespy/hardware_loop/audio/device.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hermespy/hardware_loop/audio/device.py b/hermespy/hardware_loop/audio/device.py
index 9a82379..bae3981 100644
--- a/hermespy/hardware_loop/audio/device.py
+++ b/hermespy/hardware_loop/audio/device.py
@@ -41,6 +41,11 @@ class AudioAntenna(Antenna):
     def local_characteristics(self, azimuth: float, elevation) -> np.ndarray:
         return np.array([2**0.5, 2**0.5], dtype=float)
 
+    @override
+    @classmethod
+    def Deserialize(cls, process: DeserializationProcess) -> AudioAntenna:
+        return cls(*Antenna.Deserialize_Antenna(process))
+
 
 class AudioDeviceAntennas(AntennaArray[AudioAntenna]):
     """Antenna array information for audio devices."""
-- 
2.43.0


From b21a128f8f046db8023a2d9cea692d557e0a2b50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 04/65] fix: save and restore the plotting flag of
 communication evaluators

---
 hermespy/modem/evaluators.py | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index a0a42b7..b8ca88a 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -49,7 +49,6 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
     __receive_hook: Hook[CommunicationReception]
     __transmission: CommunicationTransmission | None
     __reception: CommunicationReception | None
-    __plot_surface: bool
 
     def __init__(
         self,
@@ -147,7 +146,7 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
     def serialize(self, process: SerializationProcess) -> None:
         process.serialize_object(self.__transmitting_modem, "transmitting_modem")
         process.serialize_object(self.__receiving_modem, "receiving_modem")
-        process.serialize_integer(self.__plot_surface, "plot_surface")
+        process.serialize_integer(self.plot_surface, "plot_surface")
 
     @classmethod
     @override
@@ -155,7 +154,7 @@ class CommunicationEvaluator(ScalarEvaluator, Serializable):
         return cls(
             process.deserialize_object("transmitting_modem", TransmittingModem),
             process.deserialize_object("receiving_modem", ReceivingModem),
-            bool(process.deserialize_integer("plot_surface", cls._DEFAULT_PLOT_SURFACE)),
+            plot_surface=bool(process.deserialize_integer("plot_surface", True)),
         )
 
 
-- 
2.43.0


From f37a44ed3ae626a2c2612b8fd044be4eb43c5010 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:39:58 +0000
Subject: [PATCH 05/65] fix: keep the synchronization routine configured for
 chirp FSK waveforms

---
 hermespy/modem/waveform_chirp_fsk.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_chirp_fsk.py b/hermespy/modem/waveform_chirp_fsk.py
index b170ea5..0943961 100644
--- a/hermespy/modem/waveform_chirp_fsk.py
+++ b/hermespy/modem/waveform_chirp_fsk.py
@@ -85,7 +85,9 @@ class ChirpFSKWaveform(PilotCommunicationWaveform):
         PilotCommunicationWaveform.__init__(self, **kwargs)
 
         # Configure waveform paramters
-        self.synchronization = ChirpFSKSynchronization()
+        if kwargs.get("synchronization", None) is None:
+            self.synchronization = ChirpFSKSynchronization()
+
         self.chirp_duration = chirp_duration
         self.freq_difference = freq_difference
         self.num_pilot_chirps = num_pilot_chirps
-- 
2.43.0


From 880b6bf6e2d7099e5e545a097c2a36d736a86946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:41:17 +0000
Subject: [PATCH 06/65] fix: register all storable types with the archive by
 exporting them

---
 hermespy/channel/__init__.py       |  9 +++++++++
 hermespy/core/__init__.py          |  3 ++-
 hermespy/hardware_loop/__init__.py |  3 +++
 hermespy/modem/__init__.py         | 15 ++++++++++++++-
 hermespy/simulation/__init__.py    |  8 +++++++-
 5 files changed, 35 insertions(+), 3 deletions(-)

diff --git a/hermespy/channel/__init__.py b/hermespy/channel/__init__.py
index 747b77c..02b0c06 100644
--- a/hermespy/channel/__init__.py
+++ b/hermespy/channel/__init__.py
@@ -31,6 +31,8 @@ from .cdl import (
     UrbanMicrocellsRealization,
 )
 from .delay import SpatialDelayChannel, RandomDelayChannel
+from .delay.random import RandomDelayChannelRealization
+from .delay.spatial import SpatialDelayChannelRealization
 from .fading import (
     DeviceType,
     CorrelationType,
@@ -47,6 +49,7 @@ from .fading import (
     TDL,
 )
 from .quadriga import QuadrigaChannel
+from .quadriga.quadriga import QuadrigaChannelRealization
 from .ideal import IdealChannel, IdealChannelRealization
 from .radar import (
     MultiTargetRadarChannel,
@@ -57,6 +60,7 @@ from .radar import (
     SingleTargetRadarChannel,
     SingleTargetRadarChannelRealization,
 )
+from .radar.radar import RadarInterferencePath, RadarTargetPath
 
 __author__ = "Tobias Kronauer"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -78,6 +82,8 @@ __all__ = [
     "LinkState",
     "SpatialDelayChannel",
     "RandomDelayChannel",
+    "RandomDelayChannelRealization",
+    "SpatialDelayChannelRealization",
     "DeviceType",
     "CorrelationType",
     "StandardAntennaCorrelation",
@@ -119,6 +125,7 @@ __all__ = [
     "IdealChannel",
     "IdealChannelRealization",
     "QuadrigaChannel",
+    "QuadrigaChannelRealization",
     "FixedCrossSection",
     "MultiTargetRadarChannel",
     "MultiTargetRadarChannelRealization",
@@ -126,4 +133,6 @@ __all__ = [
     "PhysicalRadarTarget",
     "SingleTargetRadarChannel",
     "SingleTargetRadarChannelRealization",
+    "RadarInterferencePath",
+    "RadarTargetPath",
 ]
diff --git a/hermespy/core/__init__.py b/hermespy/core/__init__.py
index cec1def..3ea5b7d 100644
--- a/hermespy/core/__init__.py
+++ b/hermespy/core/__init__.py
@@ -87,7 +87,7 @@ from .precoding import (
 )
 from .state import State, DeviceState, DST, TransmitState, ReceiveState
 from .random_node import RandomRealization, RandomNode
-from .drop import Drop
+from .drop import Drop, EvaluatedDrop
 from .scenario import Scenario, ScenarioMode, ScenarioType, ReplayScenario
 from .signal_model import Signal, SignalBlock, DenseSignal, SparseSignal
 from .visualize import (
@@ -213,6 +213,7 @@ __all__ = [
     "RandomRealization",
     "RandomNode",
     "Drop",
+    "EvaluatedDrop",
     "Scenario",
     "ScenarioMode",
     "ScenarioType",
diff --git a/hermespy/hardware_loop/__init__.py b/hermespy/hardware_loop/__init__.py
index dfdb2bc..ad10168 100644
--- a/hermespy/hardware_loop/__init__.py
+++ b/hermespy/hardware_loop/__init__.py
@@ -25,6 +25,7 @@ from .precoding import IQCombiner, IQSplitter
 from .physical_device_dummy import PhysicalDeviceDummy, PhysicalScenarioDummy
 from .scenario import PhysicalScenario, PhysicalScenarioType
 from .audio import AudioDevice, AudioScenario
+from .audio.device import AudioAntenna, AudioDeviceAntennas
 from .visualizers import (
     DeviceReceptionPlot,
     DeviceTransmissionPlot,
@@ -82,7 +83,9 @@ __all__ = [
     "UsrpAntennas",
     "UsrpDevice",
     "UsrpSystem",
+    "AudioAntenna",
     "AudioDevice",
+    "AudioDeviceAntennas",
     "AudioScenario",
     "DeviceReceptionPlot",
     "DeviceTransmissionPlot",
diff --git a/hermespy/modem/__init__.py b/hermespy/modem/__init__.py
index 2f9270c..510e4d7 100644
--- a/hermespy/modem/__init__.py
+++ b/hermespy/modem/__init__.py
@@ -69,7 +69,16 @@ from .waveforms.orthogonal import (
     ReferencePosition,
 )
 
-from .waveforms.ieee_5gnr import NRFrame, NRSlot, NRSubframe, nr_bandwidth
+from .waveforms.ieee_5gnr import (
+    NRFrame,
+    NRSlot,
+    NRSubframe,
+    NRSynchronization,
+    PSS,
+    SSS,
+    nr_bandwidth,
+)
+from .waveforms.orthogonal.ofdm import OFDMSynchronization
 
 from .ieee_5gnr import NRSlotLink
 
@@ -179,6 +188,10 @@ __all__ = [
     "ReferencePosition",
     "NRFrame",
     "NRSlot",
+    "NRSynchronization",
+    "PSS",
+    "SSS",
+    "OFDMSynchronization",
     "NRSubframe",
     "nr_bandwidth",
     "NRSlotLink",
diff --git a/hermespy/simulation/__init__.py b/hermespy/simulation/__init__.py
index 789f86d..d35b973 100644
--- a/hermespy/simulation/__init__.py
+++ b/hermespy/simulation/__init__.py
@@ -1,5 +1,5 @@
 # -*- coding: utf-8 -*-
-from .animation import Trajectory, LinearTrajectory, StaticTrajectory
+from .animation import BITrajectoryB, Trajectory, LinearTrajectory, StaticTrajectory
 from .antennas import (
     SimulatedAntenna,
     SimulatedCustomArray,
@@ -83,6 +83,8 @@ from .modem import (
     EBN0,
     ESN0,
 )
+from .rf.blocks.amps import MemoryPolynomialPowerAmplifier, MemoryCTPolynomialPowerAmplifier
+from .rf.presets.ettus.x410 import X410
 
 __author__ = "Jan Adler"
 __copyright__ = "Copyright 2026, Barkhausen Institut gGmbH"
@@ -98,6 +100,8 @@ __all__ = [
     "Trajectory",
     "LinearTrajectory",
     "StaticTrajectory",
+    "BITrajectoryB",
+    "X410",
     "SimulatedAntenna",
     "SimulatedCustomArray",
     "SimulatedAntennaArray",
@@ -119,6 +123,8 @@ __all__ = [
     "QuantizerType",
     "GainControlType",
     "PowerAmplifier",
+    "MemoryPolynomialPowerAmplifier",
+    "MemoryCTPolynomialPowerAmplifier",
     "SalehPowerAmplifier",
     "RappPowerAmplifier",
     "ClippingPowerAmplifier",
-- 
2.43.0


From 65af0d8aa5b4ee70b60984bed2c24a9cc16e6824 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 07/65] fix: save the antenna arrays of simulated devices

---
 hermespy/simulation/simulated_device.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 40b4f87..0f67aae 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -2075,6 +2075,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
     @override
     def serialize(self, process: SerializationProcess) -> None:
         Device.serialize(self, process)
+        process.serialize_object(self.antennas, "antennas")
         process.serialize_object(self.rf, "rf")
         process.serialize_object(self.isolation, "isolation")
         process.serialize_object(self.coupling, "coupling")
-- 
2.43.0


From c05494d28770392cb55f7608cb9e9eb484f6ee4b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:19 +0000
Subject: [PATCH 08/65] fix: restore simulated custom arrays as the type they
 were saved as

---
 hermespy/core/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index cecea0e..ad806ea 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1479,7 +1479,7 @@ class CustomAntennaArray(Generic[AT], AntennaArray[AT], Serializable):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> CustomAntennaArray:
-        return CustomAntennaArray(
+        return cls(
             process.deserialize_object_sequence("antennas", Antenna),
             process.deserialize_array("pose", np.float64).view(Transformation),
         )
-- 
2.43.0


From d52ebe7da2389aa450d872fecdbd4953117a9ab2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:44:26 +0000
Subject: [PATCH 09/65] fix: restore the dimensions of uniform arrays as
 integers

---
 hermespy/core/antennas.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/antennas.py b/hermespy/core/antennas.py
index ad806ea..b6057a7 100644
--- a/hermespy/core/antennas.py
+++ b/hermespy/core/antennas.py
@@ -1411,7 +1411,7 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
 
     def serialize(self, process: SerializationProcess) -> None:
         AntennaArray.serialize(self, process)
-        process.serialize_array(np.asarray(self.__dimensions, np.float64), "dimensions")
+        process.serialize_array(np.asarray(self.__dimensions, np.int64), "dimensions")
         process.serialize_floating(self.__spacing, "spacing")
         process.serialize_object(self.__element, "element")
 
@@ -1419,7 +1419,7 @@ class UniformArray(Generic[AT], AntennaArray[AT], Serializable):
     def Deserialize(cls, process: DeserializationProcess) -> UniformArray:
         pose = process.deserialize_array("pose", np.float64).view(Transformation)
         spacing = process.deserialize_floating("spacing")
-        dimensions = process.deserialize_array("dimensions", np.float64).flatten().tolist()
+        dimensions = process.deserialize_array("dimensions", np.int64).flatten().tolist()
         element = process.deserialize_object("element", Antenna)
         return cls(element, spacing, dimensions, pose)  # type: ignore[arg-type]
 
-- 
2.43.0


From 9a7fe7f09571dcf8d47dccd5a552d54e63d2a3d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:41 +0000
Subject: [PATCH 10/65] fix: restore single target radar realizations without a
 target

---
 hermespy/channel/radar/single.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/single.py b/hermespy/channel/radar/single.py
index 8432864..4ae4d54 100644
--- a/hermespy/channel/radar/single.py
+++ b/hermespy/channel/radar/single.py
@@ -171,7 +171,7 @@ class SingleTargetRadarChannelRealization(RadarChannelRealization):
             process.deserialize_object("target_zenith_variable", ConsistentUniform),
             process.deserialize_object("target_velocity_variable", ConsistentUniform),
             process.deserialize_object("target_phase_variable", ConsistentUniform),
-            process.deserialize_range("target_range"),
+            process.deserialize_range("target_range", None),
             process.deserialize_range("target_azimuth"),
             process.deserialize_range("target_zenith"),
             process.deserialize_floating("target_cross_section"),
-- 
2.43.0


From 42522f5296fc390518690ae0f325441feb066ef5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:50:45 +0000
Subject: [PATCH 11/65] fix: remove non-existing names from the public names of
 the core package

---
 hermespy/core/__init__.py | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/hermespy/core/__init__.py b/hermespy/core/__init__.py
index 3ea5b7d..a141b51 100644
--- a/hermespy/core/__init__.py
+++ b/hermespy/core/__init__.py
@@ -125,7 +125,6 @@ __all__ = [
     "AntennaArrayState",
     "CustomAntennaArray",
     "UniformArray",
-    "SNRType",
     "PAPR",
     "ReceivePowerEvaluator",
     "PowerArtifact",
@@ -147,7 +146,6 @@ __all__ = [
     "Transformable",
     "TransformableBase",
     "Transformation",
-    "OperatorSlot",
     "MixingOperator",
     "TransmitterSlot",
     "ReceiverSlot",
@@ -232,7 +230,6 @@ __all__ = [
     "VAT",
     "Visualization",
     "VLT",
-    "Plot",
     "Visualizable",
     "VisualizableAttribute",
     "VT",
-- 
2.43.0


From 8f388753d8cd7f08d49255d7e78a729917f4f57c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:52:46 +0000
Subject: [PATCH 12/65] fix: restore an undefined line of sight doppler
 frequency of fading channels

---
 hermespy/channel/fading/fading.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index 3bcd120..a252c66 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -942,7 +942,8 @@ class MultipathFadingChannel(
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
         process.serialize_floating(self.__correlation_distance, "correlation_distance")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
-        process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
+        if self.__los_doppler_frequency is not None:
+            process.serialize_floating(self.__los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
             process.serialize_object(self.antenna_correlation, "antenna_correlation")
         Channel.serialize(self, process)
@@ -965,7 +966,9 @@ class MultipathFadingChannel(
                 "doppler_frequency": process.deserialize_floating(
                     "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
                 ),
-                "los_doppler_frequency": process.deserialize_floating("los_doppler_frequency"),
+                "los_doppler_frequency": process.deserialize_floating(
+                    "los_doppler_frequency", None
+                ),
                 "antenna_correlation": process.deserialize_object(
                     "antenna_correlation", AntennaCorrelation, None
                 ),
-- 
2.43.0


From 0cdc00db0caa669fc547db99997066dfc1805efd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:53:07 +0000
Subject: [PATCH 13/65] fix: restore TDL channels of types implying their line
 of sight doppler frequency

---
 hermespy/channel/fading/tdl.py | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8716f6a..8f15b1f 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -424,8 +424,15 @@ class TDL(MultipathFadingChannel):
     @classmethod
     @override
     def Deserialize(cls, process: DeserializationProcess) -> TDL:
+        model_type = process.deserialize_object("model_type", TDLType, cls._DEFAULT_TYPE)
+
+        # Model types D and E imply a fixed line of sight doppler frequency
+        los_doppler_frequency: float | None = None
+        if model_type not in (TDLType.D, TDLType.E):
+            los_doppler_frequency = process.deserialize_floating("los_doppler_frequency")
+
         return cls(
-            model_type=process.deserialize_object("model_type", TDLType, cls._DEFAULT_TYPE),
+            model_type=model_type,
             rms_delay=process.deserialize_floating("rms_delay", cls._DEFAULT_RMS_DELAY),
             correlation_distance=process.deserialize_floating(
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
@@ -435,7 +442,7 @@ class TDL(MultipathFadingChannel):
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-            los_doppler_frequency=process.deserialize_floating("los_doppler_frequency"),
+            los_doppler_frequency=los_doppler_frequency,
             antenna_correlation=process.deserialize_object(
                 "antenna_correlation", AntennaCorrelation, None
             ),
-- 
2.43.0


From ac09aa78eb564dd9c1cb3bac1cee8a12c3221f16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 14/65] fix: keep propagated signals separate from their input
 in ideal channels

---
 hermespy/channel/ideal.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/ideal.py b/hermespy/channel/ideal.py
index ce30de7..674fd19 100644
--- a/hermespy/channel/ideal.py
+++ b/hermespy/channel/ideal.py
@@ -112,7 +112,7 @@ class IdealChannelSample(ChannelSample):
                 )
 
         # Apply channel gain
-        propagated_samples *= np.sqrt(self.__gain)
+        propagated_samples = propagated_samples * np.sqrt(self.__gain)
         return SignalBlock(
             self.num_receive_antennas,
             signal.num_samples,
-- 
2.43.0


From 0763430824131b2e6e4bb45b71d2c54d7d63899d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 15/65] fix: detach the targets of multi target radar
 realizations from the channel

---
 hermespy/channel/radar/multi.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/multi.py b/hermespy/channel/radar/multi.py
index 5c642cf..8a86421 100644
--- a/hermespy/channel/radar/multi.py
+++ b/hermespy/channel/radar/multi.py
@@ -578,7 +578,7 @@ class MultiTargetRadarChannel(RadarChannelBase[MultiTargetRadarChannelRealizatio
         return MultiTargetRadarChannelRealization(
             self.__consistent_generator.realize(self.decorrelation_distance),
             self.__phase_variable,
-            self.targets,
+            self.targets.copy(),
             self.interference,
             self.attenuate,
             self.sample_hooks,
-- 
2.43.0


From f8336936860b4c808a3e9127aa7e6b188658b31a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 16/65] fix: do not convert a channel state by propagating
 signals over it

---
 hermespy/core/channel.py | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/channel.py b/hermespy/core/channel.py
index e703ddd..e906967 100644
--- a/hermespy/core/channel.py
+++ b/hermespy/core/channel.py
@@ -503,7 +503,11 @@ class ChannelStateInformation(Serializable):
         """
 
         # Make sure the accessed state is in impulse response format
-        state = self.to_impulse_response().dense_state()
+        # A potential conversion must not alter this channel state
+        impulse_response = ChannelStateInformation(
+            self.__state_format, self.__state, self.num_delay_taps, self.__num_frequency_bins
+        ).to_impulse_response()
+        state = impulse_response.dense_state()
         _signal = signal.view(np.ndarray)
 
         # Propagate the signal
-- 
2.43.0


From 857af07c9a282d7155df24a45245c8b1dffca089 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 17/65] fix: do not return the superimposed signal itself from
 empty signals

---
 hermespy/core/signal_model.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index 9cc47e1..c5e04b7 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -1454,9 +1454,9 @@ class DenseSignal(SignalBlock, Signal):  # type: ignore[misc]
         if stream_indices is None:
             stream_indices = slice(None)
 
-        # If this signal is empty, simply return the added signal
+        # If this signal is empty, simply return a copy of the added signal
         if self.size < 1:
-            return added_signal
+            return added_signal.copy()
 
         # Resample the added signal to the target sampling rate
         if added_signal.sampling_rate != self.sampling_rate:
-- 
2.43.0


From 6643698edf948839114fe6aaa3911fbbe549a629 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 18/65] fix: do not shift the blocks of a superimposed sparse
 signal

---
 hermespy/core/signal_model.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/signal_model.py b/hermespy/core/signal_model.py
index c5e04b7..20ec431 100644
--- a/hermespy/core/signal_model.py
+++ b/hermespy/core/signal_model.py
@@ -2379,7 +2379,7 @@ class SparseSignal(Signal):
             num_delay_samples = int(
                 round((added_signal.delay - self.delay) * added_signal.sampling_rate)
             )
-            added_blocks = added_signal.blocks
+            added_blocks = added_signal.copy().blocks
             if interpolation is InterpolationMode.NEAREST:
                 for b in added_blocks:
                     b.offset += num_delay_samples
-- 
2.43.0


From d71c6490bec11c080f027e5f8b3fb65eb9a3ae4a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 19/65] fix: do not normalize the caller's up vector in place

---
 hermespy/core/transformation.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index d515f68..20e4a56 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -468,7 +468,7 @@ class Transformation(np.ndarray, Serializable):
         up_ = np.asarray(up)
         if up_.shape != (3,):
             raise ValueError(f"Got up of an unexpected shape (expected (3,), got {up_.shape})")
-        up_ /= np.linalg.norm(up_)
+        up_ = up_ / np.linalg.norm(up_)
 
         # Calculate new orientation
         # forward vector
-- 
2.43.0


From 7485c0999224afd11accf4adb003baec622dfc71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 20/65] fix: update the kinematic chain after looking at a
 target

---
 hermespy/core/transformation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/core/transformation.py b/hermespy/core/transformation.py
index 20e4a56..003cde7 100644
--- a/hermespy/core/transformation.py
+++ b/hermespy/core/transformation.py
@@ -771,6 +771,7 @@ class Transformable(Serializable, TransformableLink):
         """
 
         self.pose.lookat(target, up)
+        self._kinematics_updated()
 
     def _kinematics_updated(self) -> None:
         # Clear the cached forwards transformation if the base has been updated
-- 
2.43.0


From 55d8ffe7db6482f14880178489eeffce8f448175 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 21/65] fix: do not modify corrected signals in place during
 antenna calibration

---
 hermespy/hardware_loop/calibration/antennas.py | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/calibration/antennas.py b/hermespy/hardware_loop/calibration/antennas.py
index f5e710e..ffa0f59 100644
--- a/hermespy/hardware_loop/calibration/antennas.py
+++ b/hermespy/hardware_loop/calibration/antennas.py
@@ -76,8 +76,9 @@ class ScalarAntennaCalibration(AntennaCalibration):
                 "The number of streams in the transmission does not match the number of transmit weights."
             )
 
-        np.copyto(transmission, self.__transmit_correction_weights[:, None] * transmission, "safe")
-        return transmission
+        corrected = transmission.copy()
+        np.copyto(corrected, self.__transmit_correction_weights[:, None] * transmission, "safe")
+        return corrected
 
     @override
     def correct_reception(self, reception: SignalBlock) -> SignalBlock:
@@ -86,8 +87,9 @@ class ScalarAntennaCalibration(AntennaCalibration):
                 "The number of streams in the reception does not match the number of receive weights."
             )
 
-        np.copyto(reception, self.__receive_correction_weights[:, None] * reception, "safe")
-        return reception
+        corrected = reception.copy()
+        np.copyto(corrected, self.__receive_correction_weights[:, None] * reception, "safe")
+        return corrected
 
     @staticmethod
     def Estimate(
-- 
2.43.0


From 485106b56b4f85dcdb57c8ca34aaab7d767a5467 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 22/65] fix: do not superimpose impinging signals into the
 first input

---
 hermespy/simulation/simulated_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 0f67aae..2028e9c 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -808,7 +808,7 @@ class ProcessedSimulatedDeviceInput(ProcessedDeviceInput, SimulatedDeviceReceive
         if len(impinging_signals) > 0:  # pragma: no cover
             if operator_separation and isinstance(impinging_signals[0], Sequence):  # type: ignore
                 for signal_sequence in impinging_signals:
-                    superposition = signal_sequence[0] if len(signal_sequence) > 0 else Signal.Empty(1.0, 1)  # type: ignore
+                    superposition = signal_sequence[0].copy() if len(signal_sequence) > 0 else Signal.Empty(1.0, 1)  # type: ignore
                     for subsignal in signal_sequence[1:]:  # type: ignore
                         superposition = superposition.superimpose(subsignal)  # type: ignore
 
-- 
2.43.0


From 85e258bd86951bc40f0aeed2189432cc78a939a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 23/65] fix: draw encoder randomness from the encoder manager

---
 hermespy/fec/coding.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/fec/coding.py b/hermespy/fec/coding.py
index 7242f9f..2567c47 100644
--- a/hermespy/fec/coding.py
+++ b/hermespy/fec/coding.py
@@ -205,6 +205,10 @@ class EncoderManager(RandomNode, Serializable):
         if hasattr(encoder, "manager"):
             encoder.manager = self
 
+        # Encoders draw from the manager's random generator
+        if isinstance(encoder, RandomNode):
+            encoder.random_mother = self
+
         # Add new encoder to the queue of configured encoders
         self._encoders.append(encoder)
         self._encoders = self.__execution_order()
-- 
2.43.0


From be8d805383d0e5f5fe0130cdb37028ca022b00e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 24/65] fix: draw radio frequency block randomness from the
 chain

---
 hermespy/simulation/rf/chain.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/simulation/rf/chain.py b/hermespy/simulation/rf/chain.py
index 69bb7bb..9ac7d98 100644
--- a/hermespy/simulation/rf/chain.py
+++ b/hermespy/simulation/rf/chain.py
@@ -414,6 +414,9 @@ class RFChain(RandomNode, Serializable):
         block_reference = RFBlockReference(block)
         self.__block_references.append(block_reference)
 
+        # The block draws from the chain's random generator
+        block.random_mother = self
+
         # Add blocks without RF input ports to the origin blocks list
         if block.num_input_ports < 1:
             self.__rf_origin_blocks.append(block_reference)
-- 
2.43.0


From 1c10af1dddf629d4758db4893019d3d49fec1edf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 25/65] fix: draw selective leakage from the device's random
 generator

---
 hermespy/simulation/isolation/selective.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/isolation/selective.py b/hermespy/simulation/isolation/selective.py
index 3c47e9c..ded871a 100644
--- a/hermespy/simulation/isolation/selective.py
+++ b/hermespy/simulation/isolation/selective.py
@@ -85,7 +85,7 @@ class SelectiveLeakage(Isolation):
         Returns: An initialized selective frequency model.
         """
 
-        frequency_response = np.random.normal(
+        frequency_response = device._rng.normal(
             np.sqrt(0.5) * mean,
             variance,
             (
@@ -93,7 +93,7 @@ class SelectiveLeakage(Isolation):
                 device.antennas.num_transmit_antennas,
                 num_samples,
             ),
-        ) + 1j * np.random.normal(
+        ) + 1j * device._rng.normal(
             np.sqrt(0.5) * mean,
             variance,
             (
-- 
2.43.0


From a0ebabf57aef14c0a660c390e8fac39979bfbc5e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 26/65] fix: attach the default channel to the simulation
 scenario

---
 hermespy/simulation/scenario.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/simulation/scenario.py b/hermespy/simulation/scenario.py
index b7bd098..57c8e00 100644
--- a/hermespy/simulation/scenario.py
+++ b/hermespy/simulation/scenario.py
@@ -225,6 +225,7 @@ class SimulationScenario(Scenario[SimulatedDevice, SimulatedDeviceState, Simulat
         # Initialize class attributes
         self.noise_level = noise_level  # type: ignore[operator]
         self.noise_model = noise_model  # type: ignore[operator]
+        self.__default_channel.scenario = self
         self.__visualizer = _ScenarioVisualizer(self)
 
     @classmethod
-- 
2.43.0


From 581da47476789afec50e84305bbe0d132e867184 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 27/65] fix: honour the random mother passed to the constructor
 of random nodes

---
 hermespy/core/random_node.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/core/random_node.py b/hermespy/core/random_node.py
index 4447dd5..2f49654 100644
--- a/hermespy/core/random_node.py
+++ b/hermespy/core/random_node.py
@@ -84,7 +84,9 @@ class RandomNode(object):
         """
 
         self.seed = seed
-        self.__mother_node = mother_node
+        self.__mother_node = None
+        if mother_node is not None:
+            self.random_mother = mother_node
 
     @property
     def _rng(self) -> Generator:
-- 
2.43.0


From 05751393a0120813572bd400f917229f90446901 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:17 +0000
Subject: [PATCH 28/65] fix: separate the registers of the 802.11a scrambler
 and descrambler

---
 hermespy/fec/scrambler.py | 29 ++++++++++++++++++++++-------
 1 file changed, 22 insertions(+), 7 deletions(-)

diff --git a/hermespy/fec/scrambler.py b/hermespy/fec/scrambler.py
index 1ecda1c..ed9bf24 100644
--- a/hermespy/fec/scrambler.py
+++ b/hermespy/fec/scrambler.py
@@ -192,6 +192,7 @@ class Scrambler80211a(Encoder, Serializable):
 
     __seed: np.ndarray
     __queue: deque
+    __receive_queue: deque
     __default_seed: np.ndarray = np.array([0, 1, 0, 1, 1, 0, 1], dtype=int)
 
     def __init__(self, seed: np.ndarray | None = None) -> None:
@@ -209,6 +210,7 @@ class Scrambler80211a(Encoder, Serializable):
         # The default seed is all zeros
         self.__seed = self.__default_seed.copy() if seed is None else seed
         self.__queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     @property
     def seed(self) -> np.ndarray:
@@ -239,41 +241,54 @@ class Scrambler80211a(Encoder, Serializable):
 
         self.__seed = value
         self.__queue = deque(self.__seed, 7)
+        self.__receive_queue = deque(self.__seed, 7)
 
     def encode(self, data: np.ndarray) -> np.ndarray:
-        code = np.array([self.__scramble_bit(bit) for bit in data], dtype=int)
+        code = np.array([self.__scramble_bit(bit, self.__queue) for bit in data], dtype=int)
         return code
 
     def decode(self, code: np.ndarray) -> np.ndarray:
-        data = np.array([self.__scramble_bit(bit) for bit in code], dtype=int)
+        # Descrambling must not advance the register of the scrambler and vice versa
+        data = np.array(
+            [self.__scramble_bit(bit, self.__receive_queue) for bit in code], dtype=int
+        )
         return data
 
-    def __forward_code_bit(self) -> int:
+    def __forward_code_bit(self, queue: deque | None = None) -> int:
         """Generate the next bit in the scrambling sequence.
 
         The sequence depends on the configured seed.
 
+        Args:
+            queue:
+                Register to be advanced.
+                If not specified, the transmit register is advanced.
+
         Returns:
             int:
                 The next bit within the scrambling sequence
         """
 
-        code_bit = (self.__queue[3] + self.__queue[6]) % 2
-        self.__queue.appendleft(code_bit)
+        _queue = self.__queue if queue is None else queue
+        code_bit = (_queue[3] + _queue[6]) % 2
+        _queue.appendleft(code_bit)
 
         return code_bit
 
-    def __scramble_bit(self, bit: int) -> int:
+    def __scramble_bit(self, bit: int, queue: deque) -> int:
         """Scramble a given bit.
 
         Args:
             bit(int):
                 The bit to be scrambled.
 
+            queue(deque):
+                Register generating the scrambling sequence.
+
         Returns:
             int: The scrambled bit."""
 
-        return (self.__forward_code_bit() + bit) % 2
+        return (self.__forward_code_bit(queue) + bit) % 2
 
     @property
     def bit_block_size(self) -> int:
-- 
2.43.0


From e5a54424b200006c4d2d5755e7343b7c509db677 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 29/65] fix: generate pilot sections from the current waveform
 configuration

---
 .../modem/waveforms/orthogonal/waveform.py    | 28 ++-----------------
 1 file changed, 3 insertions(+), 25 deletions(-)

diff --git a/hermespy/modem/waveforms/orthogonal/waveform.py b/hermespy/modem/waveforms/orthogonal/waveform.py
index b37cb3e..50ee6f5 100644
--- a/hermespy/modem/waveforms/orthogonal/waveform.py
+++ b/hermespy/modem/waveforms/orthogonal/waveform.py
@@ -720,9 +720,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
     """Pilot symbol section within an resource grid."""
 
     __pilot_elements: Symbols | None
-    __cached_num_subcarriers: int
-    __cached_oversampling_factor: int
-    __cached_pilot: np.ndarray | None
 
     def __init__(self, pilot_elements: Symbols | None = None, wave: OWT | None = None) -> None:
         """
@@ -741,9 +738,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
 
         # Initialize class attributes
         self.__pilot_elements = pilot_elements
-        self.__cached_num_subcarriers = -1
-        self.__cached_oversampling_factor = -1
-        self.__cached_pilot = None
 
     @GridSection.num_repetitions.setter  # type: ignore
     def num_repetitions(self, value: int) -> None:
@@ -814,9 +808,6 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if value.num_symbols < 1:
             raise ValueError("Subsymbol pilot configuration must contain at least one symbol")
 
-        # Reset the cached pilot, since the subsymbols have changed
-        self.__cached_pilot = None
-
         self.__pilot_elements = value
 
     def _pilot_sequence(self, num_symbols: int | None = None) -> np.ndarray:
@@ -872,23 +863,10 @@ class PilotSection(Generic[OWT], GridSection[OWT], Serializable):
         if self.wave is None:
             raise RuntimeError("Pilot section must be associated with a waveform")
 
-        # Return the cached pilot signal if available and the relevant frame parameters haven't changed
-        if (
-            self.__cached_pilot is not None
-            and self.__cached_num_subcarriers == self.wave.num_subcarriers
-            and self.__cached_oversampling_factor == oversampling_factor
-        ):
-            return self.__cached_pilot
-
+        # The pilot depends on the full waveform configuration, i.e. the number of subcarriers,
+        # the symbol mapping and the transformation, all of which may change between frames
         pilot_symbols = self._pilot_sequence(self.wave.num_subcarriers)
-        pilot = self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
-
-        # Cache the pilot
-        self.__cached_pilot = pilot
-        self.__cached_num_subcarriers = self.wave.num_subcarriers
-        self.__cached_oversampling_factor = oversampling_factor
-
-        return pilot
+        return self.wave._forward_transformation(pilot_symbols[np.newaxis, :], oversampling_factor)
 
     @override
     def serialize(self, process: SerializationProcess) -> None:
-- 
2.43.0


From 92e000715b4d219936fcb62e92b6c3fbbd600bf2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 30/65] fix: report the number of samples of the currently
 configured signal

---
 hermespy/core/operators.py | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/hermespy/core/operators.py b/hermespy/core/operators.py
index 7a0f88e..1aaef47 100644
--- a/hermespy/core/operators.py
+++ b/hermespy/core/operators.py
@@ -128,6 +128,11 @@ class SignalTransmitter(StaticOperator, Transmitter[Transmission], Serializable)
     def power(self) -> float:
         return float(np.mean(self.signal.power))
 
+    @property
+    @override
+    def num_samples(self) -> int:
+        return self.__signal.num_samples
+
     @property
     def signal(self) -> Signal:
         """Signal to be transmitted by the static operator for each transmission."""
-- 
2.43.0


From ba9ce885560aed9f2ce251cf59764a3d72289bca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 31/65] fix: update fading parameters after changing the number
 of sinusoids

---
 hermespy/channel/fading/fading.py | 15 +++++++++++----
 1 file changed, 11 insertions(+), 4 deletions(-)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index a252c66..e3e0c29 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -725,6 +725,16 @@ class MultipathFadingChannel(
         self.__max_delay = max(self.__delays)
         self.__num_resolvable_paths = len(self.__delays)
 
+        # Update correlations (required here to break dependency cycle during init)
+        self.antenna_correlation = antenna_correlation
+        self.correlation_distance = correlation_distance
+
+        # Infer the path gains and random variables from the number of sinusoids
+        self.__update_sinusoids()
+
+    def __update_sinusoids(self) -> None:
+        """Infer all parameters depending on the configured number of sinusoids."""
+
         rice_inf_pos = np.isposinf(self.__rice_factors)
         rice_num_pos = np.invert(rice_inf_pos)
         self.__los_gains = np.empty(self.num_resolvable_paths, dtype=float)
@@ -739,10 +749,6 @@ class MultipathFadingChannel(
         )
         self.__non_los_gains[rice_inf_pos] = 0.0
 
-        # Update correlations (required here to break dependency cycle during init)
-        self.antenna_correlation = antenna_correlation
-        self.correlation_distance = correlation_distance
-
         self.__rng = ConsistentGenerator(self)
         # Note: This is a temporary solution,
         # since the configuration class is unaware of the devices' number of antennas.
@@ -883,6 +889,7 @@ class MultipathFadingChannel(
             raise ValueError("Number of sinusoids must be greater or equal to zero")
 
         self.__num_sinusoids = num
+        self.__update_sinusoids()
 
     @property
     def los_angle(self) -> float | None:
-- 
2.43.0


From dea8115323d51c6addfb0e4a928c948b295f850d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:09:18 +0000
Subject: [PATCH 32/65] fix: apply the line of sight angle configured for
 fading channels

---
 hermespy/channel/fading/cost259.py     |  5 +++--
 hermespy/channel/fading/exponential.py |  5 +++--
 hermespy/channel/fading/fading.py      | 13 ++++++-------
 hermespy/channel/fading/tdl.py         |  5 +++--
 4 files changed, 15 insertions(+), 13 deletions(-)

diff --git a/hermespy/channel/fading/cost259.py b/hermespy/channel/fading/cost259.py
index b9fe1aa..d3d6819 100644
--- a/hermespy/channel/fading/cost259.py
+++ b/hermespy/channel/fading/cost259.py
@@ -240,7 +240,8 @@ class Cost259(MultipathFadingChannel):
         process.serialize_object(self.model_type, "model_type")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -256,7 +257,7 @@ class Cost259(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/exponential.py b/hermespy/channel/fading/exponential.py
index ae91f85..e3857bf 100644
--- a/hermespy/channel/fading/exponential.py
+++ b/hermespy/channel/fading/exponential.py
@@ -140,7 +140,8 @@ class Exponential(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -157,7 +158,7 @@ class Exponential(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index e3e0c29..c470a2c 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -717,7 +717,7 @@ class MultipathFadingChannel(
         self.__power_profile = self.__power_profile[sorting]
         self.__rice_factors = self.__rice_factors[sorting]
         self.__num_sinusoids = num_sinusoids
-        self.los_angle = self._rng.uniform(-pi, pi) if los_angle is None else los_angle
+        self.los_angle = los_angle
         self.doppler_frequency = doppler_frequency
         self.__los_doppler_frequency = los_doppler_frequency
 
@@ -753,11 +753,7 @@ class MultipathFadingChannel(
         # Note: This is a temporary solution,
         # since the configuration class is unaware of the devices' number of antennas.
         self.__antenna_correlation_variable = self.__rng.uniform((10, 10))
-        self.__los_angles_variable = (
-            self.__rng.uniform((self.__num_resolvable_paths,))
-            if self.__los_angle is not None
-            else self.__los_angle
-        )
+        self.__los_angles_variable = self.__rng.uniform((self.__num_resolvable_paths,))
         self.__nlos_angles_variable = self.__rng.uniform(
             (self.num_resolvable_paths, self.__num_sinusoids)
         )
@@ -908,7 +904,7 @@ class MultipathFadingChannel(
         return MultipathFadingRealization(
             self.__rng.realize(self.correlation_distance),
             self.__antenna_correlation_variable,
-            self.__los_angles_variable,
+            self.__los_angles_variable if self.los_angle is None else float(self.los_angle),
             self.__nlos_angles_variable,
             self.__los_phases_variable,
             self.__nlos_phases_variable,
@@ -947,6 +943,8 @@ class MultipathFadingChannel(
         process.serialize_array(self.__power_profile, "power_profile")
         process.serialize_array(self.__rice_factors, "rice_factors")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.__correlation_distance, "correlation_distance")
         process.serialize_floating(self.__doppler_frequency, "doppler_frequency")
         if self.__los_doppler_frequency is not None:
@@ -967,6 +965,7 @@ class MultipathFadingChannel(
                 "num_sinusoids": process.deserialize_integer(
                     "num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS
                 ),
+                "los_angle": process.deserialize_floating("los_angle", None),
                 "correlation_distance": process.deserialize_floating(
                     "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
                 ),
diff --git a/hermespy/channel/fading/tdl.py b/hermespy/channel/fading/tdl.py
index 8f15b1f..529f6ea 100644
--- a/hermespy/channel/fading/tdl.py
+++ b/hermespy/channel/fading/tdl.py
@@ -414,7 +414,8 @@ class TDL(MultipathFadingChannel):
         process.serialize_floating(self.rms_delay, "rms_delay")
         process.serialize_floating(self.correlation_distance, "correlation_distance")
         process.serialize_integer(self.num_sinusoids, "num_sinusoids")
-        process.serialize_floating(self.los_angle, "los_angle")
+        if self.los_angle is not None:
+            process.serialize_floating(self.los_angle, "los_angle")
         process.serialize_floating(self.doppler_frequency, "doppler_frequency")
         process.serialize_floating(self.los_doppler_frequency, "los_doppler_frequency")
         if self.antenna_correlation is not None:
@@ -438,7 +439,7 @@ class TDL(MultipathFadingChannel):
                 "correlation_distance", cls._DEFAULT_DECORRELATION_DISTANCE
             ),
             num_sinusoids=process.deserialize_integer("num_sinusoids", cls._DEFAULT_NUM_SINUSOIDS),
-            los_angle=process.deserialize_floating("los_angle"),
+            los_angle=process.deserialize_floating("los_angle", None),
             doppler_frequency=process.deserialize_floating(
                 "doppler_frequency", cls._DEFAULT_DOPPLER_FREQUENCY
             ),
-- 
2.43.0


From a4fd0bc1c0f35e55f7b8c9deaa3c87998c1b55d7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:23:55 +0000
Subject: [PATCH 33/65] fix: keep the radar cube of a reception unchanged when
 plotting it

---
 hermespy/hardware_loop/visualizers.py | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/hermespy/hardware_loop/visualizers.py b/hermespy/hardware_loop/visualizers.py
index e27c963..5b4bcdb 100644
--- a/hermespy/hardware_loop/visualizers.py
+++ b/hermespy/hardware_loop/visualizers.py
@@ -736,10 +736,14 @@ class RadarRangePlot(HardwareLoopPlot[PlotVisualization]):
         if not self.__reception:
             raise RuntimeError("Radar reception is not available")
 
+        # Normalize a copy, the reception may still be evaluated, plotted or recorded elsewhere
         cube = self.__reception.cube
-        cube.normalize_power()  # This might be a problem since the normalization is in-place
+        normalized_cube = RadarCube(
+            cube.data, cube.angle_bins, cube.doppler_bins, cube.range_bins, cube.carrier_frequency
+        )
+        normalized_cube.normalize_power()
 
-        return self.__reception.cube
+        return normalized_cube
 
     def _initial_plot(self, sample: HardwareLoopSample, axes: VAT) -> PlotVisualization:
         cube = self.__get_cube()
@@ -829,10 +833,14 @@ class RadarRangeVelocityPlot(HardwareLoopPlot[QuadMeshVisualization]):
         if not self.__reception:
             raise RuntimeError("Radar reception is not available")
 
+        # Normalize a copy, the reception may still be evaluated, plotted or recorded elsewhere
         cube = self.__reception.cube
-        cube.normalize_power()  # This might be a problem since the normalization is in-place
+        normalized_cube = RadarCube(
+            cube.data, cube.angle_bins, cube.doppler_bins, cube.range_bins, cube.carrier_frequency
+        )
+        normalized_cube.normalize_power()
 
-        return self.__reception.cube
+        return normalized_cube
 
     def _initial_plot(self, sample: HardwareLoopSample, axes: VAT) -> QuadMeshVisualization:
         cube = self.__get_cube()
-- 
2.43.0


From f291ae1ee71cc2b6a3e7e162698ba887b6c46984 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 34/65] fix: apply adaptive sampling and lowpass filter
 arguments of physical devices

---
 hermespy/hardware_loop/physical_device.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/hardware_loop/physical_device.py b/hermespy/hardware_loop/physical_device.py
index 900164a..cedc902 100644
--- a/hermespy/hardware_loop/physical_device.py
+++ b/hermespy/hardware_loop/physical_device.py
@@ -141,8 +141,8 @@ class PhysicalDevice(Generic[PDST], Device[PDST]):
 
         # Initialize class attributes
         self.max_receive_delay = max_receive_delay
-        self.adaptive_sampling = False
-        self.lowpass_filter = False
+        self.adaptive_sampling = adaptive_sampling
+        self.lowpass_filter = lowpass_filter
         self.lowpass_bandwidth = lowpass_bandwidth
         self.__recent_upload = None
         self.noise_power = noise_power
-- 
2.43.0


From f21ea85983a0c690235ad99c44c067f742ff912e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 35/65] fix: quantize the phase shifts of phase shifters

---
 hermespy/simulation/rf/blocks/shift.py | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/hermespy/simulation/rf/blocks/shift.py b/hermespy/simulation/rf/blocks/shift.py
index 8d81bb2..86e1b59 100644
--- a/hermespy/simulation/rf/blocks/shift.py
+++ b/hermespy/simulation/rf/blocks/shift.py
@@ -98,7 +98,12 @@ class Shift(RFBlock):
 
     @override
     def _propagate(self, realization: RFBlockRealization, input: RFSignal) -> RFSignal:
-        return input * np.exp(1j * self.__phase)
+        phase = self.__phase
+        if self.__num_quantization_bits > 0:
+            phase_step = 2 * np.pi / 2**self.__num_quantization_bits
+            phase = phase_step * round(phase / phase_step)
+
+        return input * np.exp(1j * phase)
 
     @property
     def i(self) -> RFBlockPort[Shift]:
-- 
2.43.0


From b7e0d580ac312d293c9234bc48ce315fb50ac7bb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 36/65] fix: pass the configured ports to the selective leakage
 calibration

---
 hermespy/hardware_loop/calibration/leakage.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/calibration/leakage.py b/hermespy/hardware_loop/calibration/leakage.py
index 542be34..511d9b3 100644
--- a/hermespy/hardware_loop/calibration/leakage.py
+++ b/hermespy/hardware_loop/calibration/leakage.py
@@ -75,7 +75,7 @@ class SelectiveLeakageCalibration(LeakageCalibrationBase):
             raise ValueError(f"Delay must be non-negative (not {delay} seconds)")
 
         # Initialize base class
-        LeakageCalibrationBase.__init__(self, physical_device)
+        LeakageCalibrationBase.__init__(self, physical_device, transmit_ports, receive_ports)
 
         # Initialize class attributes
         self.__leakage_response = leakage_response
-- 
2.43.0


From 94dbfb65763e22ce09f868c64f299149309a52c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 37/65] fix: collect scenario operating characteristics in
 their result

---
 hermespy/radar/evaluators.py | 9 ++++-----
 1 file changed, 4 insertions(+), 5 deletions(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index caa6717..90d0c09 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -1027,11 +1027,10 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
         result = RocEvaluationResult(
             [GridDimensionInfo([SamplePoint(0)], "Scenario", "linear", ValueType.LIN)], None
         )
-        artifacts = np.empty(1, dtype=object)
-        artifacts[0] = [
-            ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1).artifact()
-            for h0, h1 in zip(null_receptions, alt_receptions)
-        ]
+        for h0, h1 in zip(null_receptions, alt_receptions):
+            evaluation = ReceiverOperatingCharacteristic.__evaluation_from_receptions(h0, h1)
+            result.add_artifact((0,), evaluation.artifact(), False)
+
         return result
 
     @classmethod
-- 
2.43.0


From f60307f45a0b29d697e9d7298f6e87e20c836569 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:54 +0000
Subject: [PATCH 38/65] fix: respect the number of thresholds when initializing
 receiver operating characteristics

---
 hermespy/radar/evaluators.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/evaluators.py b/hermespy/radar/evaluators.py
index 90d0c09..7abcd79 100644
--- a/hermespy/radar/evaluators.py
+++ b/hermespy/radar/evaluators.py
@@ -814,7 +814,7 @@ class ReceiverOperatingCharacteristic(RadarEvaluator, Serializable):
 
     @override
     def initialize_result(self, grid: Sequence[GridDimensionInfo]) -> RocEvaluationResult:
-        return RocEvaluationResult(grid, self)
+        return RocEvaluationResult(grid, self, self.__num_thresholds)
 
     @staticmethod
     def FromScenarios(
-- 
2.43.0


From 29b3ccaf1a12de958d22e23146b8211ac68c6cc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 39/65] fix: apply threshold and guard ratio arguments of the
 correlation synchronization

---
 hermespy/modem/waveform_correlation_synchronization.py | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/hermespy/modem/waveform_correlation_synchronization.py b/hermespy/modem/waveform_correlation_synchronization.py
index 53a495a..66c7a3f 100644
--- a/hermespy/modem/waveform_correlation_synchronization.py
+++ b/hermespy/modem/waveform_correlation_synchronization.py
@@ -148,7 +148,9 @@ class CorrelationSynchronization(Generic[PGT], Synchronization[PGT]):
         # Determine the pilot sequence locations by performing a peak search over the correlation profile
         frame_length = self.waveform.samples_per_frame(bandwidth, oversampling_factor)
         pilot_indices, _ = find_peaks(
-            abs(correlation), height=0.9, distance=int(0.8 * frame_length)
+            abs(correlation),
+            height=self.threshold,
+            distance=max(1, int(self.guard_ratio * frame_length)),
         )
 
         # Abort if no pilot section has been detected
-- 
2.43.0


From f3b19659d3db714c15e6b2eb4a7e3b9ee90f1405 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 40/65] fix: add table rows when printing evaluation results

---
 hermespy/core/pymonte/evaluation.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/core/pymonte/evaluation.py b/hermespy/core/pymonte/evaluation.py
index a1635f0..d919ef7 100644
--- a/hermespy/core/pymonte/evaluation.py
+++ b/hermespy/core/pymonte/evaluation.py
@@ -198,6 +198,7 @@ class EvaluationResult(Generic[AT], Visualizable[PlotVisualization], ABC):
         for grid_section in np.ndindex(*[d.num_sample_points for d in self.grid]):
             columns = [g.sample_points[s].title for s, g in zip(grid_section, self.grid)]
             columns.append(self.to_str(grid_section))
+            table.add_row(*columns)
 
         _console.print(table)
 
-- 
2.43.0


From b838496aaf4d78faea9eeafc783c10f94a620ec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 41/65] fix: keep superimposed signals when processing device
 inputs

---
 hermespy/core/device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/device.py b/hermespy/core/device.py
index b8ec5e7..71f5aff 100644
--- a/hermespy/core/device.py
+++ b/hermespy/core/device.py
@@ -1520,7 +1520,7 @@ class Device(ABC, Generic[DST], Transformable, RandomNode, Serializable):
                 carrier_frequency=self.carrier_frequency,
             )
             for signal in impinging_signals:
-                superimposed_signal.superimpose(signal)
+                superimposed_signal = superimposed_signal.superimpose(signal)
 
         else:
             superimposed_signal = impinging_signals[0]
-- 
2.43.0


From faf53630c89c49b354df9458b6b2ae60d9b90dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 42/65] fix: report grid progress per section

---
 hermespy/core/pymonte/actors.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index f330fbe..b873d50 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -144,7 +144,7 @@ class MonteCarloQueueManager(object):
 
         return (
             (self.__num_grid_sections - self.__num_active_sections) * self.__num_samples
-            + np.sum(self.__grid_task_count[self.__active_section_coordinates])
+            + np.sum(self.__grid_task_count[tuple(self.__active_section_coordinates.T)])
         ) / self.__max_num_samples, self.__active_section_flags
 
 
-- 
2.43.0


From 8a6973b5074d0bb48db0d21db6ceea01c34c47cc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 43/65] fix: hand the launched simulation grid to queue manager
 and collector

---
 hermespy/core/pymonte/monte_carlo.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index bc61dc6..0126275 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -358,7 +358,7 @@ class MonteCarlo(Generic[MO]):
             remote_queue_manager_class = ray.remote(MonteCarloQueueManager)
             queue_manager = remote_queue_manager_class.options(
                 num_cpus=0, enable_task_events=self.__debug
-            ).remote(self.dimensions, self.num_samples)
+            ).remote(_dimensions, self.num_samples)
 
             # Initialize actor pool
             remote_actor_class = ray.remote(actor)
@@ -368,7 +368,7 @@ class MonteCarlo(Generic[MO]):
             remote_collector_class = ray.remote(MonteCarloCollector)
             collector = remote_collector_class.options(
                 num_cpus=0, max_concurrency=2, enable_task_events=self.__debug
-            ).remote(queue_manager, actors, self.dimensions, self.evaluators)
+            ).remote(queue_manager, actors, _dimensions, self.evaluators)
 
         # Initialize progress bar
         progress = Progress(
-- 
2.43.0


From 864172d9f518df750189ee1958534c6f858e4fde Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 44/65] fix: measure the runtime of simulation samples over the
 whole campaign

---
 hermespy/core/pymonte/monte_carlo.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 0126275..4f7cf99 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -479,7 +479,7 @@ class MonteCarlo(Generic[MO]):
 
         # Compute the final result
         simulation_result = MonteCarloResult(
-            _dimensions, self.__evaluators, evaluation_results, 0.0
+            _dimensions, self.__evaluators, evaluation_results, performance_time
         )
 
         # Print results
-- 
2.43.0


From 9022431742aa9a2be6ff978a8f16a8a1f203da54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 45/65] fix: name the time stamps when running simulations

---
 hermespy/simulation/simulation.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/simulation/simulation.py b/hermespy/simulation/simulation.py
index 139fe3f..56e38ec 100644
--- a/hermespy/simulation/simulation.py
+++ b/hermespy/simulation/simulation.py
@@ -421,7 +421,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
         )
         stage_arguments = dict()
         if timestamps[-1] > 0.0:
-            stage_arguments["sample_trajectories"] = [(t,) for t in timestamps]
+            stage_arguments["sample_states"] = [(t,) for t in timestamps]
 
         if self.console_mode != ConsoleMode.SILENT:
             self.console.log(
@@ -429,7 +429,7 @@ class Simulation(Pipeline[SimulationScenario, SimulatedDevice], MonteCarlo[Simul
             )
 
         # Generate simulation result
-        result = self.simulate(SimulationActor)
+        result = self.simulate(SimulationActor, stage_arguments=stage_arguments)
 
         # Visualize results if the flag respective is enabled
         visualizations: Sequence[Visualization] = []
-- 
2.43.0


From db5e285999adf51757a015ffe4e0edec575884a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 46/65] fix: fetch each actor's results exactly once

---
 hermespy/core/pymonte/actors.py | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index b873d50..02c9678 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -360,8 +360,11 @@ class MonteCarloActor(Generic[MO]):
         Returns: list of results from the actor run.
         """
 
-        results = self.__results.copy()
-        self.__results.clear()  # Clear the results after fetching
+        # Batches may be stashed concurrently, so only remove results that are actually returned
+        results: list[ObjectRef[list[MonteCarloSample]]] = []
+        while self.__results:
+            results.append(self.__results.pop(0))
+
         return results
 
     def __run_batch(self, batch: list[tuple[int, ...]]) -> list[MonteCarloSample]:
-- 
2.43.0


From 93f3b9f9e4f084ccab839de2c63e3e8c6913f33f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:55 +0000
Subject: [PATCH 47/65] fix: collect all results before evaluating a simulation

---
 hermespy/core/pymonte/actors.py      | 39 ++++++++++++++++++----------
 hermespy/core/pymonte/monte_carlo.py |  6 +++--
 2 files changed, 30 insertions(+), 15 deletions(-)

diff --git a/hermespy/core/pymonte/actors.py b/hermespy/core/pymonte/actors.py
index 02c9678..e28de32 100644
--- a/hermespy/core/pymonte/actors.py
+++ b/hermespy/core/pymonte/actors.py
@@ -1,5 +1,6 @@
 from __future__ import annotations
 from abc import abstractmethod
+from threading import Lock
 from typing import Callable, Generic, Sequence
 
 import numpy as np
@@ -176,6 +177,7 @@ class MonteCarloCollector(object):
         self.__results = [e.initialize_result(grid) for e in evaluators]
         self.__active = False
         self.__future_map: dict[ObjectRef, MonteCarloActor] = {}
+        self.__lock = Lock()
 
     def run(self) -> None:
         """Start up the collector, collecting samples from all actors.
@@ -186,16 +188,21 @@ class MonteCarloCollector(object):
         self.__future_map = {a.fetch_results.remote(): a for a in self.__actors}  # type: ignore[attr-defined]
         self.__active = True
 
-        while self.__active:
-            # Wait for the next sample to be available
-            ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
+        while True:
+            with self.__lock:
+                # Leave the remaining results to the final fetch
+                if not self.__active:
+                    break
 
-            # Process the samples received from the actor
-            self.__process_samples(ready_future, True)
+                # Wait for the next sample to be available
+                ready_future = wait(list(self.__future_map.keys()), num_returns=1)[0][0]
 
-            # Re-queue the request for the next result
-            actor = self.__future_map.pop(ready_future)
-            self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
+                # Process the samples received from the actor
+                self.__process_samples(ready_future, True)
+
+                # Re-queue the request for the next result
+                actor = self.__future_map.pop(ready_future)
+                self.__future_map[actor.fetch_results.remote()] = actor  # type: ignore[attr-defined]
 
     def __process_samples(
         self,
@@ -242,12 +249,18 @@ class MonteCarloCollector(object):
         # Stop the collector
         self.__active = False
 
-        # Process the last results within the queue
-        query_futures = list(self.__future_map.keys())
-        futures = wait(query_futures, num_returns=len(query_futures))[0]
+        # Process the last results within the queue once the collection loop has been left
+        with self.__lock:
+            query_futures = list(self.__future_map.keys())
+            futures = wait(query_futures, num_returns=len(query_futures))[0]
+            self.__future_map.clear()
+
+            for future in futures:
+                self.__process_samples(future, False)
 
-        for future in futures:
-            self.__process_samples(future, False)
+            # Process results stashed by the actors since the last request
+            for actor in self.__actors:
+                self.__process_samples(actor.fetch_results.remote(), False)  # type: ignore[attr-defined]
 
         return self.__results
 
diff --git a/hermespy/core/pymonte/monte_carlo.py b/hermespy/core/pymonte/monte_carlo.py
index 4f7cf99..7953200 100644
--- a/hermespy/core/pymonte/monte_carlo.py
+++ b/hermespy/core/pymonte/monte_carlo.py
@@ -382,8 +382,7 @@ class MonteCarlo(Generic[MO]):
         with Live(status_group, console=self.console) if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
             # Start running the actors
-            for a in actors:
-                _ = a.run.remote()  # type: ignore
+            runs = [a.run.remote() for a in actors]  # type: ignore
 
             # Start the collector
             _ = collector.run.remote()  # type: ignore
@@ -471,6 +470,9 @@ class MonteCarlo(Generic[MO]):
         # Fetch all remote samples at the controller#
         with self.console.status("Collecting remote results ...", spinner="dots") if self.__console_mode == ConsoleMode.INTERACTIVE else nullcontext():  # type: ignore
 
+            # All samples have been dispatched, but the actors might still be computing them
+            ray.wait(runs, num_returns=len(runs))
+
             evaluation_results: list[EvaluationResult] = ray.get(collector.fetch_results.remote())  # type: ignore
 
         # Measure elapsed time
-- 
2.43.0


From f63e847514f0da041d367b207875cfadec282d0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 48/65] fix: subtract the channel state delay in seconds

---
 hermespy/channel/radar/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 90ee65a..5efceda 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -427,7 +427,7 @@ class RadarPath(Serializable):
         relative_velocity = self.relative_velocity(transmitter, receiver)
         propagation_response = self.propagation_response(transmitter, receiver, carrier_frequency)
 
-        delay_sample_offset = int(propagation_delay * bandwidth - delay)
+        delay_sample_offset = int((propagation_delay - delay) * bandwidth)
         if delay_sample_offset < 0 or delay_sample_offset >= state.shape[3]:
             return
 
-- 
2.43.0


From 47b35b3329faac7f51c0f9610c85161f30ce2718 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 49/65] fix: advance the delay of synchronized signals by the
 trigger offset in seconds

---
 hermespy/simulation/simulated_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 2028e9c..07aa178 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1927,7 +1927,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             ).append_samples(synchronized_signal)
 
         synchronized_signal.delay = (
-            mixed_signal.delay - num_trigger_offset_samples * self.sampling_rate
+            mixed_signal.delay + num_trigger_offset_samples / self.sampling_rate
         )
 
         # Apply mutual coupling model during signal reception
-- 
2.43.0


From 20521eed7cf694b1cd87d5d46edcb3fd7c08b3f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 50/65] fix: pad signals arriving after the trigger with a
 positive number of samples

---
 hermespy/simulation/simulated_device.py | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index 07aa178..fdfbb9a 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1919,11 +1919,11 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
             synchronized_signal = mixed_signal[:, num_trigger_offset_samples:]
         elif num_trigger_offset_samples < 0:
             synchronized_signal = DenseSignal.Zeros(
-                signal.num_streams,
-                num_trigger_offset_samples,
-                signal.sampling_rate,
-                signal.carrier_frequency,
-                signal.noise_power,
+                mixed_signal.num_streams,
+                -num_trigger_offset_samples,
+                mixed_signal.sampling_rate,
+                mixed_signal.carrier_frequency,
+                mixed_signal.noise_power,
             ).append_samples(synchronized_signal)
 
         synchronized_signal.delay = (
-- 
2.43.0


From a2c9f330d033ca20b2d1e241058b3ca3d7377e36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 51/65] fix: compute the radar propagation overhead in samples

---
 hermespy/channel/radar/radar.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/channel/radar/radar.py b/hermespy/channel/radar/radar.py
index 5efceda..6a4bf75 100644
--- a/hermespy/channel/radar/radar.py
+++ b/hermespy/channel/radar/radar.py
@@ -102,7 +102,7 @@ class RadarChannelSample(ChannelSample):
         if delays.size > 0:
             max_delay_in_samples = ceil(
                 delays.max() * self.bandwidth
-                + 2 * velocities.max() * signal.num_samples / (self.bandwidth * speed_of_light)
+                + 2 * max(velocities.max(), 0.0) * signal.num_samples / speed_of_light
             )
         else:
             max_delay_in_samples = 0
-- 
2.43.0


From ff25de575c2e2e5d37513dc0f2ce5bd6953b42c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:27:01 +0000
Subject: [PATCH 52/65] fix: report the time stamp of communication frames in
 seconds

---
 hermespy/modem/modem.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/modem/modem.py b/hermespy/modem/modem.py
index 5046aed..a1b4eae 100644
--- a/hermespy/modem/modem.py
+++ b/hermespy/modem/modem.py
@@ -1253,7 +1253,7 @@ class ReceivingModemBase(Generic[CWT], BaseModem[CWT]):
                     decoded_signal=frame_signal,
                     symbols=symbols,
                     decoded_symbols=decoded_symbols,
-                    timestamp=frame_index * signal.sampling_rate,
+                    timestamp=frame_delay,
                     equalized_symbols=equalized_symbols,
                     encoded_bits=encoded_bits,
                     code_block_size=self.encoder_manager.code_block_size,
-- 
2.43.0


From b3fdd89a0d559ca1e59f4ae7dfd3b4723b0b3383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:12:36 +0000
Subject: [PATCH 53/65] fix: consider the keyword arguments of channel
 realization samples

---
 hermespy/channel/channel.py | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index d5e93c1..f4f551d 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -535,8 +535,8 @@ class ChannelRealization(Serializable, Generic[CST]):
         *args,
         **kwargs,
     ) -> CST:
-        carrier_frequency = float(args[0]) if len(args) > 0 else None
-        bandwidth = float(args[1]) if len(args) > 1 else None
+        carrier_frequency = args[0] if len(args) > 0 else kwargs.get("carrier_frequency")
+        bandwidth = args[1] if len(args) > 1 else kwargs.get("bandwidth")
 
         from hermespy.simulation import SimulatedDevice, SimulatedDeviceState
 
@@ -656,9 +656,9 @@ class ChannelRealization(Serializable, Generic[CST]):
         receiver_device: SimulatedDevice | int
 
         if isinstance(transmitter, SimulatedDevice) and isinstance(receiver, SimulatedDevice):
-            timestamp = float(args[0]) if len(args) > 0 else 0.0
-            carrier_frequency = float(args[1]) if len(args) > 1 else None
-            bandwidth = float(args[2]) if len(args) > 2 else None
+            timestamp = float(args[0]) if len(args) > 0 else kwargs.get("timestamp", 0.0)
+            carrier_frequency = args[1] if len(args) > 1 else kwargs.get("carrier_frequency")
+            bandwidth = args[2] if len(args) > 2 else kwargs.get("bandwidth")
 
             transmitter_device = transmitter
             receiver_device = receiver
@@ -669,8 +669,8 @@ class ChannelRealization(Serializable, Generic[CST]):
             receiver, SimulatedDeviceState
         ):
             timestamp = sample.time
-            carrier_frequency = float(args[0]) if len(args) > 0 else None
-            bandwidth = float(args[1]) if len(args) > 1 else None
+            carrier_frequency = args[0] if len(args) > 0 else kwargs.get("carrier_frequency")
+            bandwidth = args[1] if len(args) > 1 else kwargs.get("bandwidth")
 
             transmitter_device = transmitter.device_id
             receiver_device = receiver.device_id
-- 
2.43.0


From b181ca37a7cca00e752fdc54fd73ce9d942e0115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 54/65] fix: realize triggers from the random generator of the
 simulated device

---
 hermespy/simulation/simulated_device.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/simulated_device.py b/hermespy/simulation/simulated_device.py
index fdfbb9a..3102ba5 100644
--- a/hermespy/simulation/simulated_device.py
+++ b/hermespy/simulation/simulated_device.py
@@ -1679,7 +1679,7 @@ class SimulatedDevice(Device[SimulatedDeviceState], Moveable):
 
         # Generate a new trigger realization of none was provided
         if trigger_realization is None:
-            trigger_realization = self.trigger_model.realize()
+            trigger_realization = self.trigger_model.realize(self._rng)
 
         # Apply the trigger delay to emerging and leaking signals
         for signal in chain(emerging_signals, leaking_signals):
-- 
2.43.0


From 534823d33c1d47bc10a64353e82e2c68aaf0bfd3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 55/65] fix: let the states of audio devices and USRPs keep a
 copy of the pose

---
 hermespy/hardware_loop/audio/device.py | 2 +-
 hermespy/hardware_loop/uhd/usrp.py     | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/hermespy/hardware_loop/audio/device.py b/hermespy/hardware_loop/audio/device.py
index bae3981..f82de81 100644
--- a/hermespy/hardware_loop/audio/device.py
+++ b/hermespy/hardware_loop/audio/device.py
@@ -176,7 +176,7 @@ class AudioDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
         return PhysicalDeviceState(
             id(self),
             datetime.now().timestamp(),
-            self.pose,
+            self.pose.copy(),
             self.velocity,
             self.carrier_frequency,
             self.sampling_rate / self.oversampling_factor,
diff --git a/hermespy/hardware_loop/uhd/usrp.py b/hermespy/hardware_loop/uhd/usrp.py
index d1a0892..7054b7b 100644
--- a/hermespy/hardware_loop/uhd/usrp.py
+++ b/hermespy/hardware_loop/uhd/usrp.py
@@ -248,7 +248,7 @@ class UsrpDevice(PhysicalDevice[PhysicalDeviceState], Serializable):
         return PhysicalDeviceState(
             id(self),
             datetime.now().timestamp(),
-            self.pose,
+            self.pose.copy(),
             self.velocity,
             self.carrier_frequency,
             self.sampling_rate / self.oversampling_factor,
-- 
2.43.0


From a0a7c93f6d52377ae2ccead130935c2f0f398db9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:54 +0000
Subject: [PATCH 56/65] fix: consider azimuth and zenith of angles in the order
 radar cubes store them

---
 hermespy/radar/detection.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/radar/detection.py b/hermespy/radar/detection.py
index 128c90c..7370dbc 100644
--- a/hermespy/radar/detection.py
+++ b/hermespy/radar/detection.py
@@ -448,7 +448,7 @@ class MaxDetector(RadarDetector, Serializable):
         cloud = RadarPointCloud(cube.range_bins.max())
         cloud.add_point(
             PointDetection.FromSpherical(
-                angles_of_arrival[0], angles_of_arrival[1], range, velocity, point_power
+                angles_of_arrival[1], angles_of_arrival[0], range, velocity, point_power
             )
         )
 
-- 
2.43.0


From e728062677d29b5d7caa94ae741ad4cfa933f3fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 57/65] fix: custom antenna correlations initialize their base
 class

---
 hermespy/channel/fading/fading.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/hermespy/channel/fading/fading.py b/hermespy/channel/fading/fading.py
index c470a2c..55a6a2e 100644
--- a/hermespy/channel/fading/fading.py
+++ b/hermespy/channel/fading/fading.py
@@ -102,6 +102,10 @@ class CustomAntennaCorrelation(AntennaCorrelation):
                 Postive definte square antenna covariance matrix.
         """
 
+        # Initialize base class
+        AntennaCorrelation.__init__(self)
+
+        # Initialize class attributes
         self.covariance = covariance
 
     def sample_covariance(self, antennas: AntennaArrayState, mode: AntennaMode) -> np.ndarray:
-- 
2.43.0


From e83a874ad09ddd8778b5b68a6d13fdac5c9f6f1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 58/65] fix: updating a visualization before the first one
 raises the documented error

---
 hermespy/core/visualize.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/core/visualize.py b/hermespy/core/visualize.py
index 34c58e3..e3bb212 100644
--- a/hermespy/core/visualize.py
+++ b/hermespy/core/visualize.py
@@ -255,7 +255,7 @@ class QuadMeshVisualization(Visualization):
 class Visualizable(Generic[VT], ABC):
     """Base class for visualizable results."""
 
-    __visualization: VT | None  # The most recent visualization
+    __visualization: VT | None = None  # The most recent visualization
 
     def __init__(self) -> None:
         # Initialize class attributes
-- 
2.43.0


From 9958a34b2486a3bee8bc224befd7ec414f0432fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 59/65] fix: evaluating the PAPR of a device that did not
 transmit or receive raises the documented error

---
 hermespy/core/evaluators.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/hermespy/core/evaluators.py b/hermespy/core/evaluators.py
index 21c8b52..8da2c30 100644
--- a/hermespy/core/evaluators.py
+++ b/hermespy/core/evaluators.py
@@ -406,6 +406,8 @@ class PAPR(ScalarEvaluator):
 
         # Initialize class members
         self.__direction = direction
+        self.__output = None
+        self.__input = None
 
         # Register hooks
         if direction == AntennaMode.TX:
-- 
2.43.0


From 9ee832adad0e4862b8aab538274a8c101e9278cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 60/65] fix: evaluating the self-interference of a device that
 did not receive raises the documented error

---
 hermespy/simulation/evaluators/interference.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/simulation/evaluators/interference.py b/hermespy/simulation/evaluators/interference.py
index 135572e..2436427 100644
--- a/hermespy/simulation/evaluators/interference.py
+++ b/hermespy/simulation/evaluators/interference.py
@@ -59,6 +59,9 @@ class SI(ScalarEvaluator, Serializable):
             self, confidence, tolerance, min_num_samples, plot_scale, tick_format, plot_surface
         )
 
+        # Initialize class attributes
+        self._input = None
+
         # Register input hook
         self.__device = device
         self._input_hook = device.simulated_input_callbacks.add_callback(self.__input_callback)
-- 
2.43.0


From a78640c5977a3f91cb05dd34b1fcf095d0e51062 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 61/65] fix: hardware loop grid dimensions refer to the
 scenario by default

---
 hermespy/hardware_loop/hardware_loop.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/hardware_loop/hardware_loop.py b/hermespy/hardware_loop/hardware_loop.py
index 128ec79..f503cec 100644
--- a/hermespy/hardware_loop/hardware_loop.py
+++ b/hermespy/hardware_loop/hardware_loop.py
@@ -558,7 +558,7 @@ class HardwareLoop(Generic[PhysicalScenarioType, PDT], Pipeline[PhysicalScenario
         Returns: The newly created dimension object.
         """
 
-        considered_objects = (self.__scenario) if len(args) < 1 else args
+        considered_objects = (self.scenario,) if len(args) < 1 else args
         grid_dimension = GridDimension(considered_objects, dimension, sample_points, **kwargs)
         self.add_dimension(grid_dimension)
 
-- 
2.43.0


From 8f46c0a4d79e014f7c4d5376ae06b9f0448991f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 62/65] fix: USRP systems can be initialized with devices

---
 hermespy/hardware_loop/uhd/system.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/hermespy/hardware_loop/uhd/system.py b/hermespy/hardware_loop/uhd/system.py
index 625f8b8..2102f65 100644
--- a/hermespy/hardware_loop/uhd/system.py
+++ b/hermespy/hardware_loop/uhd/system.py
@@ -24,11 +24,12 @@ class UsrpSystem(PhysicalScenario[UsrpDevice]):
     """Scenario of USRPs running the UHD server application."""
 
     def __init__(self, *args, **kwargs) -> None:
-        PhysicalScenario.__init__(self, *args, **kwargs)
-
         # Hacked USRP system (hidden)
+        # Must exist before the base class registers devices passed during initialization
         self.__system = _UsrpSystem()
 
+        PhysicalScenario.__init__(self, *args, **kwargs)
+
     @classmethod
     @override
     def _device_type(cls) -> Type[UsrpDevice]:
-- 
2.43.0


From b693c4b100478f817c52cf273c369b8749e44650 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 63/65] fix: far field power patterns accumulate from zero
 instead of uninitialized memory

---
 hermespy/simulation/antennas.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hermespy/simulation/antennas.py b/hermespy/simulation/antennas.py
index 7578bfa..068ae7c 100644
--- a/hermespy/simulation/antennas.py
+++ b/hermespy/simulation/antennas.py
@@ -339,7 +339,7 @@ class SimulatedAntennaArray(AntennaArray[SimulatedAntenna]):
             axis=0,
         )
 
-        far_field_power = np.empty(aoi.shape[0], dtype=np.float64)
+        far_field_power = np.zeros(aoi.shape[0], dtype=np.float64)
         for idx, (azimuth, zenith) in enumerate(aoi):
             phase_response = self.spherical_phase_response(
                 signal.carrier_frequency, azimuth, zenith, AntennaMode.TX
-- 
2.43.0


From d2ba1032a0b8646bc477efbd5edca232bc0c61b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 64/65] fix: the realization of a channel that was not realized
 yet is None

---
 hermespy/channel/channel.py | 1 +
 1 file changed, 1 insertion(+)

diff --git a/hermespy/channel/channel.py b/hermespy/channel/channel.py
index f4f551d..8552d8c 100644
--- a/hermespy/channel/channel.py
+++ b/hermespy/channel/channel.py
@@ -760,6 +760,7 @@ class Channel(ABC, RandomNode, Serializable, Generic[CRT, CST]):
         # Default parameters
         self.gain = gain
         self.__scenario = None
+        self.__last_realization = None
         self.__sample_hooks = set()
 
     @property
-- 
2.43.0


From f03006f6527277abe46bccc76467f4e25f25ee08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:54:01 +0000
Subject: [PATCH 65/65] fix: error vector magnitude evaluations provide their
 evaluation

---
 hermespy/modem/evaluators.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hermespy/modem/evaluators.py b/hermespy/modem/evaluators.py
index b8ca88a..dede08f 100644
--- a/hermespy/modem/evaluators.py
+++ b/hermespy/modem/evaluators.py
@@ -538,6 +538,9 @@ class EVMEvaluation(EvaluationTemplate[float, PlotVisualization]):
             np.mean(np.abs(self.__transmitted_symbols[:size] - self.__received_symbols[:size]) ** 2)
         )
 
+        # Initialize base class
+        EvaluationTemplate.__init__(self, self.__evm)
+
     @property
     @override
     def title(self) -> str:
-- 
2.43.0

