From e8310ca7ea585059b08338e44e546d2fc58faaed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 01/19] fix: ray offset of the 16th ray is -1.1481 (TR 38.901
 Table 7.5-3)

---
 OpenNTN/rays.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index 507b1ca..aab9000 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -107,7 +107,7 @@ class RaysGenerator(Object):
                                          0.5129, -0.5129,
                                          0.6797, -0.6797,
                                          0.8844, -0.8844,
-                                         1.1481, -0.1481,
+                                         1.1481, -1.1481,
                                          1.5195, -1.5195,
                                          2.1551, -2.1551],
                                          self.rdtype)
-- 
2.43.0


From b3c7f0eb7ab218ea7c390a15ef25170cde5df879 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:46 +0000
Subject: [PATCH 02/19] fix: dual-polarized VH arrays use slant angles 0 and 90
 degrees

---
 OpenNTN/antenna.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index 39783ab..c505da4 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -524,7 +524,7 @@ class PanelArray(Object):
         else:
             assert polarization_type in ["VH", "cross"],\
             "For dual polarization, polarization_type must be 'VH' or 'cross'"
-            slant_angle = 0 if polarization == "VH" else -PI/4
+            slant_angle = 0 if polarization_type == "VH" else -PI/4
             self._ant_pol1 = AntennaElement(antenna_pattern, slant_angle,
                 self.precision)
             self._ant_pol2 = AntennaElement(antenna_pattern, slant_angle+PI/2,
-- 
2.43.0


From 4e38b0bf1e12bb6a326ed5ed8fe862fe2405bdc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:31:58 +0000
Subject: [PATCH 03/19] fix: LoS direction of arrival points back at the
 transmitter

The zenith angle of arrival was the departure zenith minus 180 degrees
(negative). Together with the azimuth of arrival, which is already
turned by 180 degrees, this mirrored the horizontal component: the LoS
path arrived from the wrong side of the receiver.
---
 OpenNTN/system_level_scenario.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 7f65ec0..66eb17a 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -311,7 +311,8 @@ class SystemLevelScenario(Object):
 
     @property
     def los_zoa(self):
-        r"""considered 90 degrees"""
+        r"""LoS zenith angle of arrival of each BS-UT link [deg].
+        [batch size, number of BSs, number of UTs]"""
         return self._los_zoa
 
     @property
@@ -824,7 +825,7 @@ class SystemLevelScenario(Object):
         los_aod = tf.atan2(delta_loc[:,:,:,1], delta_loc[:,:,:,0])
         los_aoa = los_aod + PI
         los_zod = tf.atan2(distance_2d, delta_loc[:,:,:,2])
-        los_zoa = los_zod - PI
+        los_zoa = PI - los_zod
         # Angles are converted to degrees and wrapped to (0,360)
         self._los_aod = wrap_angle_0_360(rad_2_deg(los_aod))
         self._los_aoa = wrap_angle_0_360(rad_2_deg(los_aoa))
-- 
2.43.0


From 83937035311346b93ec20cff8c07ad741ceb38e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:34:45 +0000
Subject: [PATCH 04/19] fix: satellite height is taken per batch example and
 per BS

The 3D distance, Doppler and Faraday gates and the zero departure spread
used the height of the first batch example for the whole batch, and more
than one BS raised an error, although the topology is documented as
[batch size, number of BSs, 3] and may differ between batch examples.
---
 OpenNTN/channel_coefficients.py  | 96 +++++++++++++++++++++-----------
 OpenNTN/rays.py                  | 21 +++++--
 OpenNTN/system_level_channel.py  |  2 +-
 OpenNTN/system_level_scenario.py | 11 +---
 4 files changed, 86 insertions(+), 44 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index c7813c2..243cb4d 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -100,6 +100,9 @@ class Topology(Object):
         max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        if sat_speed.shape.rank == 2:
+            # One height per batch example and BS
+            random_direction_per_batch = tf.expand_dims(random_direction_per_batch, axis=1)
         self.sat_speed = tf.math.cos(random_direction_per_batch) * max_sat_speed_for_elevation_angle
 
 
@@ -543,6 +546,47 @@ class ChannelCoefficientsGenerator(Object):
 
         return h_phase
 
+    def _bs_to_links(self, topology, x):
+        # pylint: disable=line-too-long
+        r"""
+        Expand a per-BS quantity for broadcasting with the links
+
+        Input
+        ------
+        topology : Topology
+            Topology of the network
+
+        x : [batch size, number of BSs], or [batch size] or [1] if it is the same for all BSs
+            Per-BS quantity
+
+        Output
+        ------
+        : Broadcastable to [batch size, num TXs, num RXs]
+            Per-link quantity
+        """
+        x = tf.convert_to_tensor(x)
+        if x.shape.rank < 2:
+            return tf.reshape(x, [-1, 1, 1])
+        # The BS is the end of the link which is not moving
+        return tf.expand_dims(x, 2 if topology.moving_end == 'rx' else 1)
+
+    def _satellite_links(self, topology):
+        # pylint: disable=line-too-long
+        r"""
+        Indicates which links are with a satellite (height of at least 600km)
+
+        Input
+        ------
+        topology : Topology
+            Topology of the network
+
+        Output
+        ------
+        : Broadcastable to [batch size, num TXs, num RXs], tf.bool
+            `True` for the links with a satellite
+        """
+        return tf.greater_equal(self._bs_to_links(topology, topology.bs_height), 600000.0)
+
     def _step_11_doppler_matrix(self, topology, aoa, zoa, aod, zod, t):
         # pylint: disable=line-too-long
         r"""
@@ -606,27 +650,18 @@ class ChannelCoefficientsGenerator(Object):
         exponent = 2*PI/lambda_0*tf.reduce_sum(r_hat_ut*v_uts_bar, -2)*t
 
         # Check if a satellite is used (height of satellite is at least 600km). This is done to potentially incorporate HAPS later
-        if tf.logical_and(tf.less_equal(600000.0, topology.bs_height), topology.doppler_enabled):
-            # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
-            # to simulate the random direction of the orbit in relation to the users. 
-            max_sat_speed_for_elevation_angle = topology.sat_speed
-            # The Doppler shift induced phase shift between each time step
-            max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
-
-            # Multiply the time with the shift per time to create the shift on each time symbol for each batch
-            # [batch size, num time steps]
-            rotation_for_time = tf.matmul(tf.expand_dims(max_rotation_per_time,axis=1), tf.expand_dims(t,axis=0))
-
-            # As the time shift is the same within each batch, we expand the calculations per batch in the desired shape
-            # to get shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-            rotation_for_time = tf.expand_dims(rotation_for_time, [1])
-
-            rotation_for_time = tf.broadcast_to(rotation_for_time, tf.shape(exponent))
-            # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
-            exponent = tf.math.add(exponent, rotation_for_time)
+        is_sat = tf.logical_and(self._satellite_links(topology), topology.doppler_enabled)
+        # We get the maximum speed of the satellite based on its orbit and the users elevation angle. This value is multiplied with a random constant between [cos(0),cos(2pi))
+        # to simulate the random direction of the orbit in relation to the users. 
+        max_sat_speed_for_elevation_angle = self._bs_to_links(topology, topology.sat_speed)
+        # The Doppler shift induced phase shift between each time step
+        max_rotation_per_time = (2.0*PI/lambda_0)*max_sat_speed_for_elevation_angle
+        max_rotation_per_time = tf.where(is_sat, max_rotation_per_time, tf.zeros_like(max_rotation_per_time))
+        # As the time shift is the same for all rays of a link, we expand the calculations per link in the desired shape
+        # to get shape [batch size, num_tx, num rx, num clusters, num rays, num time steps]
+        rotation_for_time = max_rotation_per_time[..., tf.newaxis, tf.newaxis, tf.newaxis]*t
+        # Add the Doppler exponent to the standard exponent based on 3GPP TR38.811 section 6.8.1
+        exponent = exponent + rotation_for_time
 
         h_doppler = tf.exp(tf.complex(tf.constant(0.,
                                     self.rdtype), exponent))
@@ -872,11 +907,11 @@ class ChannelCoefficientsGenerator(Object):
         h_phase = self._step_11_phase_matrix(phi, rays)
 
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):            
-            rays_shape = tf.shape(rays.aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
-            
+        rays_shape = tf.shape(rays.aoa)
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
+        is_sat = self._satellite_links(topology)[..., tf.newaxis, tf.newaxis, tf.newaxis, tf.newaxis]
+        h_phase = tf.where(is_sat, tf.matmul(h_phase,faraday_phase_rotation), h_phase)
+
         h_field = self._step_11_field_matrix(topology, rays.aoa, rays.aod,
                                                     rays.zoa, rays.zod, h_phase)
         h_array = self._step_11_array_offsets(topology, rays.aoa, rays.aod,
@@ -1020,11 +1055,10 @@ class ChannelCoefficientsGenerator(Object):
                                          [1,1,1,1,1,2,2])
         
         # Add Faraday phase rotation in NTN case
-        if tf.greater_equal(topology.bs_height, 600000.0):
-
-            rays_shape = tf.shape(aoa)
-            faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
-            h_phase = tf.matmul(h_phase,faraday_phase_rotation)
+        rays_shape = tf.shape(aoa)
+        faraday_phase_rotation = self._step_11_faraday_rotation(carrier_frequency=carrier_frequency, aod_shape=rays_shape)
+        is_sat = self._satellite_links(topology)[..., tf.newaxis, tf.newaxis, tf.newaxis, tf.newaxis]
+        h_phase = tf.where(is_sat, tf.matmul(h_phase,faraday_phase_rotation), h_phase)
 
         h_field = self._step_11_field_matrix(topology, aoa, aod, zoa, zod,
                                                                     h_phase)
diff --git a/OpenNTN/rays.py b/OpenNTN/rays.py
index aab9000..abd7b02 100644
--- a/OpenNTN/rays.py
+++ b/OpenNTN/rays.py
@@ -389,6 +389,19 @@ class RaysGenerator(Object):
 
         return powers, powers_for_angles_gen
 
+    def _satellite_links(self):
+        """
+        Indicates which links belong to a satellite, for which the departure
+        angle spreads are 0.
+
+        Output
+        -------
+        : [batch size, num of BSs, 1, 1], tf.bool
+            `True` if the BS is high enough to be a satellite
+        """
+        h_bs = tf.expand_dims(tf.expand_dims(self._scenario.h_bs, 2), 3)
+        return tf.greater_equal(h_bs, tf.constant(160000., self.rdtype))
+
     def _azimuth_angles(self, azimuth_spread, rician_k_factor, cluster_powers,
                         angle_type):
         # pylint: disable=line-too-long
@@ -431,8 +444,8 @@ class RaysGenerator(Object):
             azimuth_angles_los = scenario.los_aod
             cluster_angle_spread = scenario.get_param('cASD')
             #Spread is 0 for satellite cases
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                azimuth_spread = tf.zeros_like(azimuth_spread)
+            azimuth_spread = tf.where(self._satellite_links(),
+                tf.zeros_like(azimuth_spread), azimuth_spread)
             
         else:
             azimuth_angles_los = scenario.los_aoa
@@ -596,8 +609,8 @@ class RaysGenerator(Object):
             cluster_angle_spread = (3./8.)*tf.math.pow(tf.constant(10.,
                 self.rdtype),
                 scenario.lsp_log_mean[:,:,:,6])
-            if self._scenario.bs_loc[0,0,2] >= 160000:
-                zenith_spread = tf.zeros_like(zenith_spread)
+            zenith_spread = tf.where(self._satellite_links(),
+                tf.zeros_like(zenith_spread), zenith_spread)
         else:
             cluster_angle_spread = scenario.get_param('cZSA')
             zenith_angles_los = scenario.los_zoa
diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index 7e0cad6..ec56d89 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -209,7 +209,7 @@ class SystemLevelChannel(ChannelModel):
                                 distance_3d=self._scenario.distance_3d,
                                 tx_orientations=tx_orientations,
                                 rx_orientations=rx_orientations,
-                                bs_height = self._scenario._bs_loc[:,:,2][0],
+                                bs_height = self._scenario.h_bs,
                                 elevation_angle = self._scenario.elevation_angle,
                                 doppler_enabled = self._scenario.doppler_enabled
                                 )
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 66eb17a..cd8f830 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -808,17 +808,12 @@ class SystemLevelScenario(Object):
         #Radius of the Earth
         R_E = 6371000
  
-        #satellite height 
-        height_val = self._bs_loc[:,:,2][0]
+        #satellite height, shaped [batch size, number of BSs, 1] for broadcasting with the UTs
+        height_val = tf.expand_dims(self.h_bs, axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
         distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
         #Expanding to correct shape
-        # TODO there is a sometimes occuring bug at this point. The squeeze assumes there to be more than one user, which can run into issues. However,
-        # this bug is not yet fully understood and seems to be limited to eager executions. For the future this needs to be fixed. This bug is also assumed
-        # to cause the infinite GPU memory allocation in eager execution during the use of the LMMSEEqualizer. 
-        # Additionally, tf.squeeze is used here, as distance_3d needs to be a tf.constant, but casting that directly lead to bugs. This workaround works well,
-        # but should be replaced by a more straightforward solution in the future.
-        distance_3d = tf.fill([self.batch_size, self.num_bs, self.num_ut], tf.squeeze(distance_3d))
+        distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
 
         # LoS AoA, AoD, ZoA, ZoD
-- 
2.43.0


From 6520ce782ecace4035ec09863a8a1ab1a1a754ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 05/19] fix: no shadow fading in the basic pathloss when it is
 disabled

enable_shadow_fading=False only removed the LSP shadow fading in step 12;
the random shadow fading of the basic pathloss was still applied.
---
 OpenNTN/utils.py | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index eaaf500..5e217fc 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1777,6 +1777,10 @@ def compute_pathloss_basic(self):
         SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
         SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
 
+        if not self.shadow_fading_enabled:
+            SF_los = tf.zeros_like(SF_los)
+            SF_nlos = tf.zeros_like(SF_nlos)
+
         pl_los = fspl + SF_los
         pl_nlos = fspl + SF_nlos + cl
         pl_b = tf.where(self.los, pl_los, pl_nlos)
-- 
2.43.0


From ef60ad906def53da9d641a2f530faa3169b27a92 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:18 +0000
Subject: [PATCH 06/19] fix: indoor and outdoor 3D distances are defined below
 the BS

They were NaN (0/0) for a UT right below the BS.
---
 OpenNTN/system_level_scenario.py | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index cd8f830..72ed95f 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -874,8 +874,9 @@ class SystemLevelScenario(Object):
         # Compute the outdoor 2D distances
         self._distance_2d_out = self.distance_2d - self._distance_2d_in
         # Compute the indoor 3D distances
-        self._distance_3d_in = ((self._distance_2d_in/self.distance_2d)
-            *self.distance_3d)
+        # (the 2D distance is 0 if the BS is at the zenith of the UT)
+        self._distance_3d_in = (tf.math.divide_no_nan(self._distance_2d_in,
+            self.distance_2d)*self.distance_3d)
         # Compute the outdoor 3D distances
         self._distance_3d_out = self.distance_3d - self._distance_3d_in
 
-- 
2.43.0


From 6a2a809a44b76ec87c13819d139c3f4efae7acc9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:35:53 +0000
Subject: [PATCH 07/19] fix: atmospheric parameters are kept and applied by
 set_topology

Parameters which are not specified were reset to the standard values by
every call (also those of the channel models, which cannot pass them),
although the documentation promises the reuse of the previous value, and
specifying only such parameters did not update the losses.
---
 OpenNTN/system_level_scenario.py | 47 +++++++++++++++++++-------------
 1 file changed, 28 insertions(+), 19 deletions(-)

diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index 72ed95f..a5ef9bd 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -122,6 +122,18 @@ class SystemLevelScenario(Object):
         self._in_state = None
         self._requested_los = None
 
+        # Standard values of the parameters of the atmospheric losses, used if
+        # not further specified when setting the topology
+        self._latitude = 47
+        self._lwc = 0.41
+        self._rain_rate = 40
+        self._atmospheric_pressure = 1020
+        self._temperature = 273
+        self._water_vapor_density = 7.5
+        self._relative_humidity = 50
+        self._diameter_earth_antenna = 3.6
+        self._antenna_efficiency = 0.5
+
         # Load parameters for this scenario
         self._load_params()
 
@@ -570,51 +582,44 @@ class SystemLevelScenario(Object):
         # state of UTs, or LoS/NLoS states of outdoor UTs are updated.
         need_for_update = False
 
-        #Setting values to standard values if not further specified
+        #Parameters of the atmospheric losses, values which are not specified are reused
+        need_for_pathloss_update = False
+
         if latitude is not None:
             self._latitude = latitude
-        else:
-            self._latitude = 47
+            need_for_pathloss_update = True
 
         if lwc is not None:
             self._lwc = lwc
-        else:
-            self._lwc = 0.41
+            need_for_pathloss_update = True
 
         if rain_rate is not None:
             self._rain_rate = rain_rate
-        else:
-            self._rain_rate = 40
+            need_for_pathloss_update = True
 
         if atmospheric_pressure is not None:
             self._atmospheric_pressure = atmospheric_pressure
-        else:
-            self._atmospheric_pressure = 1020
+            need_for_pathloss_update = True
 
         if temperature is not None:
             self._temperature = temperature
-        else:
-            self._temperature = 273
+            need_for_pathloss_update = True
 
         if water_vapor_density is not None:
             self._water_vapor_density = water_vapor_density
-        else:
-            self._water_vapor_density = 7.5
+            need_for_pathloss_update = True
 
         if relative_humidity is not None:
             self._relative_humidity = relative_humidity
-        else:
-            self._relative_humidity = 50
+            need_for_pathloss_update = True
 
         if diameter_earth_antenna is not None:
             self._diameter_earth_antenna = diameter_earth_antenna
-        else:
-            self._diameter_earth_antenna = 3.6
+            need_for_pathloss_update = True
 
         if antenna_efficiency is not None:
             self._antenna_efficiency = antenna_efficiency
-        else:
-            self._antenna_efficiency = 0.5
+            need_for_pathloss_update = True
 
         if ut_loc is not None:
             self._ut_loc = ut_loc
@@ -659,6 +664,10 @@ class SystemLevelScenario(Object):
             self._compute_pathloss_entry()
             # Compute the basic path-loss
             self._compute_pathloss_scintillation()
+        elif need_for_pathloss_update:
+            # Only the atmospheric losses depend on the changed parameters
+            self._compute_pathloss_gas()
+            self._compute_pathloss_scintillation()
             #The 3GPP model only considers the losses given above. However, there also are
             #models for additional losses due to clouds and rain, which are considered in this function
             #self._compute_pathloss_additional()
-- 
2.43.0


From 435151de5baf60604e4f3aa27ada55d6fe15ddda Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:42:37 +0000
Subject: [PATCH 08/19] fix: precision="double" works for the system-level
 models and topologies

---
 OpenNTN/antenna.py               |  4 +--
 OpenNTN/channel_coefficients.py  | 15 +++++----
 OpenNTN/dense_urban_scenario.py  |  2 +-
 OpenNTN/sub_urban_scenario.py    |  2 +-
 OpenNTN/system_level_scenario.py |  3 +-
 OpenNTN/urban_scenario.py        |  2 +-
 OpenNTN/utils.py                 | 56 +++++++++++++++++---------------
 7 files changed, 44 insertions(+), 40 deletions(-)

diff --git a/OpenNTN/antenna.py b/OpenNTN/antenna.py
index c505da4..aab8557 100644
--- a/OpenNTN/antenna.py
+++ b/OpenNTN/antenna.py
@@ -187,8 +187,8 @@ class AntennaElement(Object):
 
         ka = a * 2 * math.pi
         r = tf.acos(tf.sin(theta) * tf.cos(phi))
-        amplitude = tf.where(0.0 == r, tf.cast(1.0, tf.float32), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
-        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, tf.float32), amplitude)
+        amplitude = tf.where(0.0 == r, tf.cast(1.0, r.dtype), 4 * tf.abs(tf.math.special.bessel_j1(tf.sin(r)*ka) / (ka * tf.sin(r))) ** 2)
+        return tf.where(tf.abs(r) > 0.5*math.pi, tf.cast(0.0, r.dtype), amplitude)
 
     def _radiation_pattern_co_phased_DLp(self, theta, phi):
         """
diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 243cb4d..9a75791 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -96,10 +96,11 @@ class Topology(Object):
         # In a future version we will test the sat height and set sat_speed to none if the bs is too low to be a satellite
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
-        sat_speed = compute_satellite_speed(bs_height)
-        max_sat_speed_for_elevation_angle = tf.math.cos(elevation_angle * (PI/180.0)) * sat_speed
+        rdtype = los_aoa.dtype
+        sat_speed = compute_satellite_speed(tf.cast(bs_height, rdtype))
+        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), rdtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
-        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size])
+        random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype = rdtype)
         if sat_speed.shape.rank == 2:
             # One height per batch example and BS
             random_direction_per_batch = tf.expand_dims(random_direction_per_batch, axis=1)
@@ -1144,10 +1145,10 @@ class ChannelCoefficientsGenerator(Object):
         psi_in_deg = 108.0/(carrier_frequency_in_GHz*carrier_frequency_in_GHz)
         # TODO there is a bug report here,  appearently passing a Tensor to a NumPy call, which is not supported. Assumably psi in the functions is the issue,
         # but the bug could not yet be replicated. This comment serves as a reminder in case of future resurgence of the issue
-        psi_in_rad = psi_in_deg * (PI/180.0)
-        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), 0.0))
-        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), 0.0))
-        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), 0.0))
+        psi_in_rad = tf.cast(psi_in_deg * (PI/180.0), self.rdtype)
+        faraday_cos = tf.fill(dims=aod_shape, value=tf.complex(tf.math.cos(psi_in_rad), tf.constant(0., self.rdtype)))
+        faraday_sin = tf.fill(dims=aod_shape, value=tf.complex(tf.math.sin(psi_in_rad), tf.constant(0., self.rdtype)))
+        faraday_minus_sin = tf.fill(dims=aod_shape, value=tf.complex(-tf.math.sin(psi_in_rad), tf.constant(0., self.rdtype)))
         shape = tf.concat([tf.shape(faraday_cos), [2,2]], axis=-1)
         faraday_phase_rot = tf.reshape(tf.stack([faraday_cos, faraday_minus_sin, faraday_sin, faraday_cos], axis=-1), shape)
         return faraday_phase_rot
diff --git a/OpenNTN/dense_urban_scenario.py b/OpenNTN/dense_urban_scenario.py
index acf1214..aaecd07 100644
--- a/OpenNTN/dense_urban_scenario.py
+++ b/OpenNTN/dense_urban_scenario.py
@@ -130,7 +130,7 @@ class DenseUrbanScenario(SystemLevelScenario):
         angle_str = str(round(self._elevation_angle/10.0)*10)
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
 
         return los_probability
 
diff --git a/OpenNTN/sub_urban_scenario.py b/OpenNTN/sub_urban_scenario.py
index b476708..1ef1fa0 100644
--- a/OpenNTN/sub_urban_scenario.py
+++ b/OpenNTN/sub_urban_scenario.py
@@ -132,7 +132,7 @@ class SubUrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         return los_probability
 
     @property
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index a5ef9bd..be6351b 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -820,7 +820,8 @@ class SystemLevelScenario(Object):
         #satellite height, shaped [batch size, number of BSs, 1] for broadcasting with the UTs
         height_val = tf.expand_dims(self.h_bs, axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
-        distance_3d = (tf.sqrt(R_E**2 * tf.math.sin(elevation_angle)**2 + height_val**2 + 2*height_val*R_E) - R_E*tf.math.sin(elevation_angle))
+        sin_elevation = tf.math.sin(tf.cast(elevation_angle, self.rdtype))
+        distance_3d = (tf.sqrt(R_E**2 * sin_elevation**2 + height_val**2 + 2*height_val*R_E) - R_E*sin_elevation)
         #Expanding to correct shape
         distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
         self._distance_3d = distance_3d
diff --git a/OpenNTN/urban_scenario.py b/OpenNTN/urban_scenario.py
index c8e9cdc..0435dda 100644
--- a/OpenNTN/urban_scenario.py
+++ b/OpenNTN/urban_scenario.py
@@ -131,7 +131,7 @@ class UrbanScenario(SystemLevelScenario):
         los_p = self._params_los["LoS_p" + '_' + angle_str]
         #self._distance_2d_out already has desired shape, this it is used here to keep the code shorter
         #los_probability = tf.zeros(shape=self._distance_2d_out.shape) + los_p
-        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out)) + los_p
+        los_probability = tf.zeros(shape = tf.shape(self._distance_2d_out), dtype = self.rdtype) + los_p
         
         return los_probability
 
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index 5e217fc..a64fa3a 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -582,9 +582,10 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    actual_bs_ut_distance = tf.cast(bs_height, rdtype) / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = tf.cast(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
-    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut)
+    x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
 
     # Randomly assign the UTs to one of the two half of the sector
@@ -979,8 +980,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut]) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1161,7 +1162,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], bs_height)], axis=-1)
+                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1600,11 +1601,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=self._temperature
-        p=self._atmospheric_pressure
+        T=tf.cast(self._temperature, self.rdtype)
+        p=tf.cast(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=self._water_vapor_density#water vapor density
+        pw=tf.cast(self._water_vapor_density, self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
@@ -1639,24 +1640,24 @@ def compute_pathloss_gas(self):
         ee6=(rp**0.2445)*(rt**(-5.9191))*tf.math.exp((0.0422*(1-rp))+(-8.0719*(1-rt)))
         ee7=(rp**(-0.1833))*(rt**(6.5589))*tf.math.exp((-0.2402*(1-rp))+(6.131*(1-rt)))
 
-        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * math.exp((-2.5196)*(1-rt))
-        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * math.exp((0.8563)*(1-rt))
-        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * math.exp((1.1521)*(1-rt))
-        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * math.exp((0.6287)*(1-rt))
-        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * math.exp((-4.1643)*(1-rt))
+        g54 = 2.136 * rp**1.4975 * rt**(-1.5852) * tf.math.exp((-2.5196)*(1-rt))
+        g57 = 9.984 * rp**0.9313 * rt**(2.6732) * tf.math.exp((0.8563)*(1-rt))
+        g60 = 15.42 * rp**0.8595 * rt**(3.6178) * tf.math.exp((1.1521)*(1-rt))
+        g63 = 10.63 * rp**0.9298 * rt**(2.3284) * tf.math.exp((0.6287)*(1-rt))
+        g66 = 1.944 * rp**1.6657 * rt**(-3.3714) * tf.math.exp((-4.1643)*(1-rt))
 
         
         # Calculation of the dry air specific attenuation 
         # For more detail see ITU-R P.676-5 (22a)
         if tf.less_equal(f,60.0):
-            N = 0.0
+            N = tf.constant(0.0, self.rdtype)
         else:
-            N = -15.0
+            N = tf.constant(-15.0, self.rdtype)
         
         if tf.less_equal(f, 54.0):
             Yo=(((7.2*(rt**2.8))/((f**2)+(0.34*(rp**2)*(rt**1.6))))+((0.62*ee3)/(((54-f)**(1.16*ee1))+(0.83*ee2))))*((f**2)*(rp**2)*(10**(-3)))
 
-        elif tf.less(54.0,f) and tf.less_equal(f, 66.0):
+        elif tf.greater(f, 54.0) and tf.less_equal(f, 66.0):
             Yo = tf.math.exp((
                             ((54.0**(-N)) * tf.math.log(g54) * (f - 57.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 1944.0) -
                             ((57.0**(-N)) * tf.math.log(g57) * (f - 54.0) * (f - 60.0) * (f - 63.0) * (f - 66.0) / 486.0) +
@@ -1665,13 +1666,13 @@ def compute_pathloss_gas(self):
                             ((66.0**(-N)) * tf.math.log(g66) * (f - 54.0) * (f - 57.0) * (f - 60.0) * (f - 63.0) / 1944.0) 
                             )* f**N)
         
-        elif tf.less(66.0,f) and tf.less_equal(f, 120.0):
+        elif tf.greater(f, 66.0) and tf.less_equal(f, 120.0):
             Yo = 3.02 * 10.0**(-4) * rt**(3.5) + ((0.283*rt**3.8)/((f-118.75)**2.0 +2.91 * rp**2.0 * rt**1.6)) + ((0.502 * ee6 * (1 - 0.0163 * ee7 * (f - 66.0)))/((f - 66.0) ** (1.4346 * ee4 + 1.15 * ee5)))
         # TODO In eager execution this code requires Yo to always be set. The best solution would be to throw an exception if illeagal frequencies are encoutered. However, this
         # currently breaks eager execution and thus uses this value instead. A future version will properly cath this case and throw an exceotion.For now this is not 
         # necessary, as the frequency range is not supported by the standard.
         else:
-            Yo = 0.0
+            Yo = tf.constant(0.0, self.rdtype)
 
         # Calculation of the equivalent height
         t1=(4.64/(1+(0.066*(rp**(-2.3)))))*tf.math.exp(-(((f-59.7)/(2.87+(12.4*tf.math.exp((-7.9)*rp))))**2.0))
@@ -1684,10 +1685,10 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(math.radians(Elev))
+        Atotx = (Ao + Aw) / tf.math.sin(tf.cast(math.radians(Elev), self.rdtype))
         GasAtt = abs(Atotx)
 
-        pl_g = tf.zeros(shape = tf.shape(self.los)) + GasAtt
+        pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
 
         self._pl_g = pl_g
             
@@ -1717,7 +1718,8 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            L = (2 * hL) / (tf.math.sqrt(tf.math.sin(math.radians(Elev))**2 + 2.35e-4 + tf.math.sin(math.radians(Elev))))
+            sin_elev = tf.math.sin(tf.cast(math.radians(Elev), self.rdtype))
+            L = (2 * hL) / (tf.math.sqrt(sin_elev**2 + 2.35e-4 + sin_elev))
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
@@ -1738,7 +1740,7 @@ def compute_pathloss_scintilation(self):
             TroScin = a_p * g_x
 
             TScin=abs(TroScin)
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + TScin
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + TScin
             self._pl_s = pl_s
             
         #For carrier frequencies below 6GHz we only consider Ionospheric scintillation    
@@ -1751,14 +1753,14 @@ def compute_pathloss_scintilation(self):
             #Scale scintillation pathloss at 4GHz to used carrier frequency by applying 3GPP TR38.811 6.6-12
             AIs = Pluc_4GHz * (f/4)**(n)
             #Get final loss by dividing by sqrt(2) according to 3GPP TR38.811 6.6-13
-            pl_s = tf.zeros(shape = tf.shape(self.los)) + (AIs/math.sqrt(2.0))
+            pl_s = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + (AIs/math.sqrt(2.0))
             self._pl_s = pl_s
         
 
 
 def compute_pathloss_entry(self):
         #Currently only 0, as no HAPS are considered an thus no building cases
-        pl_e = tf.zeros(shape = tf.shape(self.los))
+        pl_e = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype)
         self._pl_e = pl_e
         #ntnu.compute_pathloss_gas(self)
 
@@ -1774,8 +1776,8 @@ def compute_pathloss_basic(self):
         sigmaSF_los = self._params_los["sigmaSF" + '_' + angle_str]
         sigmaSF_nlos = self._params_nlos["sigmaSF" + '_' + angle_str]
 
-        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los)
-        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos)
+        SF_los = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_los, dtype = self.rdtype)
+        SF_nlos = tf.random.normal(shape = tf.shape(self.los), mean = 0.0, stddev = sigmaSF_nlos, dtype = self.rdtype)
 
         if not self.shadow_fading_enabled:
             SF_los = tf.zeros_like(SF_los)
@@ -1951,7 +1953,7 @@ def compute_pathloss_additional(self):
 
         total_att = Ratt + CAtten
 
-        pl_a = tf.zeros(shape = tf.shape(self.los)) + total_att
+        pl_a = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + total_att
 
         self._pl_a = pl_a
 
-- 
2.43.0


From 315ea827b2279232ba37275d8b4bfe65ae1b4b38 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:43:48 +0000
Subject: [PATCH 09/19] fix: effective path length of tropospheric
 scintillation (ITU-R P.618)

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index a64fa3a..e93d7ed 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1719,7 +1719,7 @@ def compute_pathloss_scintilation(self):
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
             sin_elev = tf.math.sin(tf.cast(math.radians(Elev), self.rdtype))
-            L = (2 * hL) / (tf.math.sqrt(sin_elev**2 + 2.35e-4 + sin_elev))
+            L = (2 * hL) / (tf.math.sqrt(sin_elev**2 + 2.35e-4) + sin_elev)
                 
             # Step 5: Calculate the effective antenna diameter
             D = self._diameter_earth_antenna # antenna diameter in meters
-- 
2.43.0


From efa766f3de1799bc37ea8d9500fd6e3bdcadc83e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:46:30 +0000
Subject: [PATCH 10/19] fix: bearing of generated UTs points at the satellite
 in every quadrant

---
 OpenNTN/utils.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index e93d7ed..c9b6049 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -983,7 +983,7 @@ def generate_uts_topology(  batch_size,
     ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
     ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
-    ut_bearing = tf.math.atan(ut_loc_xy[:,:,1]/ut_loc_xy[:,:,0])
+    ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
 
     return ut_loc, ut_orientations, ut_velocities, in_state
-- 
2.43.0


From 2f677954f658e861c2a192b2bbaf30eed87332ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:56:04 +0000
Subject: [PATCH 11/19] fix: satellite Doppler uses the speed component along
 the link (TR 38.811 6.8.1)

---
 OpenNTN/channel_coefficients.py | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index 9a75791..b1b65ea 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -97,8 +97,12 @@ class Topology(Object):
         # self.sat_speed = None
         # if tf.reduce_any(tf.greater_equal(bs_height, 600000.0)):
         rdtype = los_aoa.dtype
-        sat_speed = compute_satellite_speed(tf.cast(bs_height, rdtype))
-        max_sat_speed_for_elevation_angle = tf.math.cos(tf.cast(elevation_angle * (PI/180.0), rdtype)) * sat_speed
+        sat_height = tf.cast(bs_height, rdtype)
+        sat_speed = compute_satellite_speed(sat_height)
+        # The component of the satellite's speed along the link follows from the elevation angle at the UT and
+        # the radii of the Earth and of the orbit (3GPP TR38.811 6.8.1)
+        r_earth = 6371000.0
+        max_sat_speed_for_elevation_angle = (r_earth/(r_earth + sat_height)) * tf.math.cos(tf.cast(elevation_angle * (PI/180.0), rdtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype = rdtype)
         if sat_speed.shape.rank == 2:
-- 
2.43.0


From 1634995223121d9e847c25c07e75b8af49d8c2bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 21:57:27 +0000
Subject: [PATCH 12/19] fix: no scintillation fading instead of NaN for large
 earth antennas (ITU-R P.618)

---
 OpenNTN/utils.py | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index c9b6049..d616c04 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1728,7 +1728,8 @@ def compute_pathloss_scintilation(self):
             # Step 6: Calculate the antenna averaging factor
 
             x = (1.22 * Deff**2 * f) / L
-            g = tf.math.sqrt(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6))
+            # For large antennas (x >= 7.0) the argument of the square root is negative and no fading is predicted
+            g = tf.math.sqrt(tf.maximum(3.86 * (x**2 + 1)**(11/12) * tf.math.sin((11/6) * tf.math.atan(1/x)) - 7.08 * x**(5/6), 0.0))
 
             # Step 7: Calculate the standard deviation of the signal for the period and propagation path
             g_x = (ref * f**(7/12) * g) / (math.sin(math.radians(Elev))**1.2)
-- 
2.43.0


From 6a45ad74de30797c9bb3eb13294007f65543a680 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:02:57 +0000
Subject: [PATCH 13/19] fix: installer keeps the anchor import intact when it
 is the last line without newline

---
 post_install.py        | 2 ++
 post_install_legacy.py | 2 ++
 2 files changed, 4 insertions(+)

diff --git a/post_install.py b/post_install.py
index a33aa6d..c9a0099 100644
--- a/post_install.py
+++ b/post_install.py
@@ -28,6 +28,8 @@ def modify_vanilla_sionna():
             for i, line in enumerate(lines):
                 if preceding_line in line:
                     insert_index = i + 1
+                    if not line.endswith("\n"):
+                        lines[i] = line + "\n"
                     break
 
         if line_present:
diff --git a/post_install_legacy.py b/post_install_legacy.py
index 2e80ae7..4c4a899 100644
--- a/post_install_legacy.py
+++ b/post_install_legacy.py
@@ -28,6 +28,8 @@ def modify_vanilla_sionna():
             for i, line in enumerate(lines):
                 if preceding_line in line:
                     insert_index = i + 1
+                    if not line.endswith("\n"):
+                        lines[i] = line + "\n"
                     break
 
         if line_present:
-- 
2.43.0


From c90553928b61f004246cddb83dc98fda20ebea3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:11:53 +0000
Subject: [PATCH 14/19] fix: constants of the water vapour equivalent height
 (ITU-R P.676 annex 2)

---
 OpenNTN/utils.py | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index d616c04..e9c44e2 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -1625,8 +1625,8 @@ def compute_pathloss_gas(self):
             ((f**2) * (rt**2.5) * (pw*10**(1-5)))
 
         # calculation of the path length for water vapor contents(hw) (km) 
-        conw=1.013/(1+tf.math.exp((0-8.1)*(rp-0.57)))
-        hw=1.66*(1+((1.39*conw)/(((f-22.235)**2)+(2.56*conw)))+((3.37*conw)/(((f-183.31)**2)+(4.69*conw)))+((1.5*conw)/(((f-325.1)**2)+(2.89*conw))))
+        conw=1.013/(1+tf.math.exp((0-8.6)*(rp-0.57)))
+        hw=1.66*(1+((1.39*conw)/(((f-22.235)**2)+(2.56*conw)))+((3.37*conw)/(((f-183.31)**2)+(4.69*conw)))+((1.58*conw)/(((f-325.1)**2)+(2.89*conw))))
 
         #water vapor attenuation in zenith angle path (dB)
         Aw=Yw*hw 
-- 
2.43.0


From a64cf3c9e98712e50d1dae1ccd1682df0f164ed5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:30 +0000
Subject: [PATCH 15/19] fix: transmit correlation of the TDL model was not the
 given matrix

---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index f2e5cc9..9f876c2 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -531,7 +531,7 @@ class TDL(ChannelModel):
                 if self._rx_corr_mat_sqrt is not None:
                     h = tf.matmul(self._rx_corr_mat_sqrt, h)
                 if self._tx_corr_mat_sqrt is not None:
-                    h = tf.matmul(h, self._tx_corr_mat_sqrt)
+                    h = tf.matmul(h, self._tx_corr_mat_sqrt, transpose_b=True)
                 h = tf.transpose(h, [0,1,5,2,6,3,4])
 
         # Stop gadients to avoid useless backpropagation
-- 
2.43.0


From 9ea3a40150b07ea92afc08e4f5216c26c50ee9cd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:26:30 +0000
Subject: [PATCH 16/19] fix: TDL model could not be created in double precision

---
 OpenNTN/tdl.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/OpenNTN/tdl.py b/OpenNTN/tdl.py
index 9f876c2..ae5cbcd 100644
--- a/OpenNTN/tdl.py
+++ b/OpenNTN/tdl.py
@@ -578,7 +578,7 @@ class TDL(ChannelModel):
         elavation_angle = self.elevation_angle
 
         #Equation (8.41) from Curtis, H. D. (2005). Orbital Mechanics for Engineering Students. Butterworth-Heinemann. ISBN: 0 7506 6169 0.
-        v_sat = tf.math.sqrt((G*M)/((r_earth*1000)+(h_sat*1000)))/1000#speed of the satellite in given Orbit around Earth in km/s
+        v_sat = tf.math.sqrt(tf.constant((G*M)/((r_earth*1000)+(h_sat*1000)), self.rdtype))/1000#speed of the satellite in given Orbit around Earth in km/s
 
         additional_doppler_shift_811 = v_sat/v_light * ((r_earth/(r_earth+h_sat)) * np.cos(np.deg2rad(elavation_angle))) * self._carrier_frequency
         return 2.*PI*speed/SPEED_OF_LIGHT*self._carrier_frequency + additional_doppler_shift_811
-- 
2.43.0


From a5fd02e6f988582f49e71b42ed88684062f602ca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:51:28 +0000
Subject: [PATCH 17/19] fix: Python numbers keep their precision in
 double-precision models

tf.cast() of a Python number rounds it to single precision first: the slant
range was off by centimetres (a wavelength and more in Ka band) in double
precision.
---
 OpenNTN/channel_coefficients.py  |  2 +-
 OpenNTN/system_level_scenario.py |  2 +-
 OpenNTN/utils.py                 | 36 +++++++++++++++++++-------------
 3 files changed, 23 insertions(+), 17 deletions(-)

diff --git a/OpenNTN/channel_coefficients.py b/OpenNTN/channel_coefficients.py
index b1b65ea..d5c26be 100644
--- a/OpenNTN/channel_coefficients.py
+++ b/OpenNTN/channel_coefficients.py
@@ -102,7 +102,7 @@ class Topology(Object):
         # The component of the satellite's speed along the link follows from the elevation angle at the UT and
         # the radii of the Earth and of the orbit (3GPP TR38.811 6.8.1)
         r_earth = 6371000.0
-        max_sat_speed_for_elevation_angle = (r_earth/(r_earth + sat_height)) * tf.math.cos(tf.cast(elevation_angle * (PI/180.0), rdtype)) * sat_speed
+        max_sat_speed_for_elevation_angle = (r_earth/(r_earth + sat_height)) * tf.math.cos(elevation_angle * tf.constant(PI/180.0, rdtype)) * sat_speed
         batch_size = tf.shape(los_aoa)[0]
         random_direction_per_batch = tf.random.uniform(minval=0, maxval=2*PI, shape = [batch_size], dtype = rdtype)
         if sat_speed.shape.rank == 2:
diff --git a/OpenNTN/system_level_scenario.py b/OpenNTN/system_level_scenario.py
index be6351b..d3a2673 100644
--- a/OpenNTN/system_level_scenario.py
+++ b/OpenNTN/system_level_scenario.py
@@ -820,7 +820,7 @@ class SystemLevelScenario(Object):
         #satellite height, shaped [batch size, number of BSs, 1] for broadcasting with the UTs
         height_val = tf.expand_dims(self.h_bs, axis=2)
         #Calculating the 3d distance based on 3GPP TR38.811 6.6-3 to consider the Earth's curveture
-        sin_elevation = tf.math.sin(tf.cast(elevation_angle, self.rdtype))
+        sin_elevation = tf.math.sin(tf.constant(elevation_angle, self.rdtype))
         distance_3d = (tf.sqrt(R_E**2 * sin_elevation**2 + height_val**2 + 2*height_val*R_E) - R_E*sin_elevation)
         #Expanding to correct shape
         distance_3d = tf.broadcast_to(distance_3d, [self.batch_size, self.num_bs, self.num_ut])
diff --git a/OpenNTN/utils.py b/OpenNTN/utils.py
index e9c44e2..23f9b22 100755
--- a/OpenNTN/utils.py
+++ b/OpenNTN/utils.py
@@ -17,6 +17,12 @@ from sionna.phy.utils import log10
 import numpy as np
 from sionna.phy import PI, config, dtypes
 
+def _to_tensor(x, dtype):
+    # `tf.cast` rounds Python numbers to single precision before casting them
+    if isinstance(x, (int, float, complex)):
+        return tf.constant(x, dtype)
+    return tf.cast(x, dtype)
+
 
 def subcarrier_frequencies(num_subcarriers, subcarrier_spacing,
                            precision=None):
@@ -117,10 +123,10 @@ def time_frequency_vector(num_samples, sample_duration, precision=None):
 
     # Time vector
     t = tf.cast(tf.linspace(n_min, n_max, num_samples), rdtype) \
-        * tf.cast(sample_duration, rdtype)
+        * _to_tensor(sample_duration, rdtype)
 
     # Frequency vector
-    df = tf.cast(1.0/sample_duration, rdtype)/tf.cast(num_samples, rdtype)
+    df = _to_tensor(1.0/sample_duration, rdtype)/tf.cast(num_samples, rdtype)
     f = tf.cast(tf.linspace(n_min, n_max, num_samples), rdtype) \
         * tf.cast(df, rdtype)
 
@@ -582,8 +588,8 @@ def drop_uts_in_sector(batch_size, num_ut, bs_height, elevation_angle, isd,
     # the center with some random variation based on the isd
 
     
-    bs_height = tf.cast(bs_height, rdtype)
-    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(tf.cast(elevation_angle,rdtype))),rdtype)
+    bs_height = _to_tensor(bs_height, rdtype)
+    actual_bs_ut_distance = bs_height / tf.cast(tf.math.sin(deg_2_rad(_to_tensor(elevation_angle,rdtype))),rdtype)
     distance_center_to_ut = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height))
     x_base = tf.random.uniform(shape = [1], minval=0,maxval=distance_center_to_ut, dtype=rdtype)
     y_base = tf.math.sqrt(tf.math.square(actual_bs_ut_distance) - tf.math.square(bs_height) - tf.math.square(x_base))
@@ -980,8 +986,8 @@ def generate_uts_topology(  batch_size,
                                 axis=-1)
 
     
-    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 180.0, rdtype)),rdtype)
-    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(tf.cast(elevation_angle + 90.0, rdtype)),rdtype)
+    ut_downtilt = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(_to_tensor(elevation_angle + 180.0, rdtype)),rdtype)
+    ut_slant = tf.zeros([batch_size, num_ut], rdtype) + tf.cast(deg_2_rad(_to_tensor(elevation_angle + 90.0, rdtype)),rdtype)
     #Always point at the BS, which is at [0,0,bs_height]
     ut_bearing = tf.math.atan2(ut_loc_xy[:,:,1], ut_loc_xy[:,:,0])
     ut_orientations = tf.stack([ut_bearing, ut_downtilt, ut_slant], axis=-1)
@@ -1162,7 +1168,7 @@ def gen_single_sector_topology( batch_size,
     # Setting BS to (0,0,bs_height)
     bs_loc = tf.stack([ tf.zeros([batch_size, 1], rdtype),
                         tf.zeros([batch_size, 1], rdtype),
-                        tf.fill( [batch_size, 1], tf.cast(bs_height, rdtype))], axis=-1)
+                        tf.fill( [batch_size, 1], _to_tensor(bs_height, rdtype))], axis=-1)
 
     # BS always faces exactly down in simulations
     bs_yaw = tf.constant(0.0, rdtype)
@@ -1471,7 +1477,7 @@ def exp_corr_mat(a, n, precision=None):
         cdtype = dtypes[precision]["tf"]["cdtype"]
     
     # Cast to desired output dtype and expand last dimension for broadcasting
-    a = tf.cast(a, dtype=cdtype)
+    a = _to_tensor(a, cdtype)
     a = tf.expand_dims(a, -1)
 
     # Check that a is valid
@@ -1558,8 +1564,8 @@ def one_ring_corr_mat(phi_deg, num_ant, d_h=0.5, sigma_phi_deg=15,
         warnings.warn("sigma_phi_deg should be smaller than 15.")
 
     # Convert all inputs to radians
-    phi_deg = tf.cast(phi_deg, dtype=rdtype)
-    sigma_phi_deg = tf.cast(sigma_phi_deg, dtype=rdtype)
+    phi_deg = _to_tensor(phi_deg, rdtype)
+    sigma_phi_deg = _to_tensor(sigma_phi_deg, rdtype)
     phi = deg_2_rad(phi_deg)
     sigma_phi = deg_2_rad(sigma_phi_deg)
 
@@ -1601,11 +1607,11 @@ def compute_pathloss_gas(self):
         """
 
         # Constants set during scenario creation 
-        T=tf.cast(self._temperature, self.rdtype)
-        p=tf.cast(self._atmospheric_pressure, self.rdtype)
+        T=_to_tensor(self._temperature, self.rdtype)
+        p=_to_tensor(self._atmospheric_pressure, self.rdtype)
 
         f = self._carrier_frequency/(10.0**9.0)
-        pw=tf.cast(self._water_vapor_density, self.rdtype)#water vapor density
+        pw=_to_tensor(self._water_vapor_density, self.rdtype)#water vapor density
         
         # Calculate the water vapor specific attenuation(Yw)
         # For more detail see ITU-R P.676-5 (23a)
@@ -1685,7 +1691,7 @@ def compute_pathloss_gas(self):
             
         # Calculate the total gases attenuation for the given elevation
         Elev = self._elevation_angle
-        Atotx = (Ao + Aw) / tf.math.sin(tf.cast(math.radians(Elev), self.rdtype))
+        Atotx = (Ao + Aw) / tf.math.sin(_to_tensor(math.radians(Elev), self.rdtype))
         GasAtt = abs(Atotx)
 
         pl_g = tf.zeros(shape = tf.shape(self.los), dtype = self.rdtype) + GasAtt
@@ -1718,7 +1724,7 @@ def compute_pathloss_scintilation(self):
             #  Calculate the effective path length
             hL = 1000 # Height of turbulent layer in meters
             Elev = self._elevation_angle
-            sin_elev = tf.math.sin(tf.cast(math.radians(Elev), self.rdtype))
+            sin_elev = tf.math.sin(_to_tensor(math.radians(Elev), self.rdtype))
             L = (2 * hL) / (tf.math.sqrt(sin_elev**2 + 2.35e-4) + sin_elev)
                 
             # Step 5: Calculate the effective antenna diameter
-- 
2.43.0


From c372b7906fdd2fa025c7c28608e7a7c64480e0b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:56:08 +0000
Subject: [PATCH 18/19] fix: topology plot draws terminals and satellites in
 the same unit

---
 OpenNTN/system_level_channel.py | 18 +++++++-----------
 1 file changed, 7 insertions(+), 11 deletions(-)

diff --git a/OpenNTN/system_level_channel.py b/OpenNTN/system_level_channel.py
index ec56d89..aa30004 100644
--- a/OpenNTN/system_level_channel.py
+++ b/OpenNTN/system_level_channel.py
@@ -340,16 +340,12 @@ class SystemLevelChannel(ChannelModel):
 
         ut_loc = self._scenario.ut_loc.numpy()[batch_index]
         bs_loc = self._scenario.bs_loc.numpy()[batch_index]
-        ut_scaled_unit = "[m]"
-        bs_scaled_unit = "[m]"
-        ut_condition = tf.reduce_any(tf.greater(ut_loc, 10000.0))
-        bs_condition = tf.reduce_any(tf.greater(bs_loc, 10000.0))
-        if ut_condition:
+        # UTs and BSs share the axes, and therefore also the unit
+        scaled_unit = "[m]"
+        if max(np.max(np.abs(ut_loc)), np.max(np.abs(bs_loc))) > 10000.0:
             ut_loc = ut_loc/1000.0
-            ut_scaled_unit = "[km]"
-        if bs_condition:
             bs_loc = bs_loc/1000.0
-            bs_scaled_unit = "[km]"
+            scaled_unit = "[km]"
 
         ut_orientations = self._scenario.ut_orientations.numpy()[batch_index]
         bs_orientations = self._scenario.bs_orientations.numpy()[batch_index]
@@ -387,9 +383,9 @@ class SystemLevelChannel(ChannelModel):
             ax.text(loc[0], loc[1], loc[2], f'{u}')
             draw_coordinate_system(ax, loc, ut_orientations[u], delta)
 
-        x_label = str('x ' + ut_scaled_unit)
-        y_label = str('y ' + ut_scaled_unit)
-        z_label = str('z ' + bs_scaled_unit)
+        x_label = str('x ' + scaled_unit)
+        y_label = str('y ' + scaled_unit)
+        z_label = str('z ' + scaled_unit)
         ax.set_xlabel(x_label)
         ax.set_ylabel(y_label)
         ax.set_zlabel(z_label)
-- 
2.43.0


From f4986c8b2c35ab067969786bbc21b744620ba2b3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:03:18 +0000
Subject: [PATCH 19/19] fix: installer replaces the framework file in one step

---
 post_install.py        | 7 ++++++-
 post_install_legacy.py | 7 ++++++-
 2 files changed, 12 insertions(+), 2 deletions(-)

diff --git a/post_install.py b/post_install.py
index c9a0099..1993d40 100644
--- a/post_install.py
+++ b/post_install.py
@@ -37,8 +37,13 @@ def modify_vanilla_sionna():
 
         if insert_index is not None:
             lines.insert(insert_index, f"{line_to_add}\n")
-            with open(channel_init_file_path, 'w') as file:
+            # Replace the file in one step, so that it is never left incomplete
+            channel_init_file_path = os.path.realpath(channel_init_file_path)
+            new_init_file_path = channel_init_file_path + ".new"
+            with open(new_init_file_path, 'w') as file:
                 file.writelines(lines)
+            shutil.copymode(channel_init_file_path, new_init_file_path)
+            os.replace(new_init_file_path, channel_init_file_path)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
             print(f"Could not find import of tr38901.")
diff --git a/post_install_legacy.py b/post_install_legacy.py
index 4c4a899..9cf4c6e 100644
--- a/post_install_legacy.py
+++ b/post_install_legacy.py
@@ -37,8 +37,13 @@ def modify_vanilla_sionna():
 
         if insert_index is not None:
             lines.insert(insert_index, f"{line_to_add}\n")
-            with open(channel_init_file_path, 'w') as file:
+            # Replace the file in one step, so that it is never left incomplete
+            channel_init_file_path = os.path.realpath(channel_init_file_path)
+            new_init_file_path = channel_init_file_path + ".new"
+            with open(new_init_file_path, 'w') as file:
                 file.writelines(lines)
+            shutil.copymode(channel_init_file_path, new_init_file_path)
+            os.replace(new_init_file_path, channel_init_file_path)
             print(f"Added import of tr38811 in channel: {line_to_add}")
         elif not line_present:
             print(f"Could not find import of tr38901.")
-- 
2.43.0

