From 8f8d2130ceb37d87d6b988809f552642023746a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 01/12] fix: brake against the current velocity when the
 acceleration shield falls back

The sign of the emergency braking command mixed the current and the proposed
velocity, so a vehicle moving backwards whose proposed speed was not backwards
coasted instead of braking, while the reported applied action said it braked.
---
 mbd/robots/acc_tt2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbd/robots/acc_tt2d.py b/mbd/robots/acc_tt2d.py
index 034fdf5..a5df03b 100644
--- a/mbd/robots/acc_tt2d.py
+++ b/mbd/robots/acc_tt2d.py
@@ -254,7 +254,7 @@ class AccTractorTrailer2d(TractorTrailer2d):
         
         # Step 4: Return q_new if safe, otherwise apply backup control for this step
         # Backup control aims to decelerate towards zero velocity and zero steering rate
-        decel_sign = jnp.where(v_cur > self._v_threshold, -1.0, jnp.where(v_new < -self._v_threshold, 1.0, 0.0))
+        decel_sign = jnp.where(v_cur > self._v_threshold, -1.0, jnp.where(v_cur < -self._v_threshold, 1.0, 0.0))
         a_backup = jnp.clip(jnp.abs(v_cur/self.dt), 0, self.a_max)
         u_backup_scaled = jnp.array([decel_sign * a_backup, 0.0])
         q_backup = euler(self.tractor_trailer_dynamics, q, u_backup_scaled, self.dt)
-- 
2.43.0


From 2fdfbd7c5830ac87100b82a91f863f4bea17f266 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 02/12] fix: detect circular obstacles that lie inside a
 vehicle body

Only the distance to the rectangle's edges was tested, so a small obstacle
swallowed by the body went unnoticed. The zero-radius placeholder obstacle sat
at the origin; put it far away, as its comment says.
---
 mbd/envs/env.py    | 2 +-
 mbd/robots/tt2d.py | 6 +++++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/mbd/envs/env.py b/mbd/envs/env.py
index 43e88a0..9ef8b95 100644
--- a/mbd/envs/env.py
+++ b/mbd/envs/env.py
@@ -39,7 +39,7 @@ class Env:
             
         # if self.obs_circles is empty, set a far away obstacle with radius 0
         if len(self.obs_circles) == 0:
-            self.obs_circles = [[0.0, 0.0, 0.0]]
+            self.obs_circles = [[1.0e4, 1.0e4, 0.0]]
 
     def get_default_parking_config(self):
         """Default parking configuration for parking scenario"""
diff --git a/mbd/robots/tt2d.py b/mbd/robots/tt2d.py
index 1b45934..e056a3b 100644
--- a/mbd/robots/tt2d.py
+++ b/mbd/robots/tt2d.py
@@ -960,7 +960,11 @@ class TractorTrailer2d:
         dist_sqs = jnp.sum((circle_center[None, :] - closest_points) ** 2, axis=1)  # Shape: (4,)
         min_dist_sq = jnp.min(dist_sqs)
         
-        return min_dist_sq <= circle_radius ** 2
+        # The rectangle is solid: a circle center on the same side of all edges lies inside it
+        sides = edges[:, 0] * to_centers[:, 1] - edges[:, 1] * to_centers[:, 0]  # Shape: (4,)
+        center_inside = jnp.all(sides >= 0.0) | jnp.all(sides <= 0.0)
+        
+        return center_inside | (min_dist_sq <= circle_radius ** 2)
 
     @partial(jax.jit, static_argnums=(0,))
     def check_rectangle_rectangle_collision(self, rect1_corners, rect2_corners):
-- 
2.43.0


From cd88206b37bb14a7f826296dd0d78947cf8d292b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:09:54 +0000
Subject: [PATCH 03/12] fix: constrain the projection with the real footprint
 and the real step

The projected control was checked with boxes as long as the wheelbases only
(no overhangs) and with an RK4 step, while the vehicle moves by an Euler step
and collides with its full footprint, so accepted controls could collide.
---
 mbd/robots/kinematic_bicycle2d.py |  5 +----
 mbd/robots/tt2d.py                | 13 +++++--------
 2 files changed, 6 insertions(+), 12 deletions(-)

diff --git a/mbd/robots/kinematic_bicycle2d.py b/mbd/robots/kinematic_bicycle2d.py
index 07478d0..83cc3a1 100644
--- a/mbd/robots/kinematic_bicycle2d.py
+++ b/mbd/robots/kinematic_bicycle2d.py
@@ -625,10 +625,7 @@ class KinematicBicycle2d(TractorTrailer2d):
         def euler_np(dynamics, x, u, dt):
             """NumPy version of euler integration"""
             k1 = dynamics(x, u)
-            k2 = dynamics(x + dt / 2 * k1, u)
-            k3 = dynamics(x + dt / 2 * k2, u)
-            k4 = dynamics(x + dt * k3, u)
-            return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
+            return x + dt * k1
         
         def input_scaler_np(u_normalized):
             """NumPy version of input scaler"""
diff --git a/mbd/robots/tt2d.py b/mbd/robots/tt2d.py
index e056a3b..5bd8a7b 100644
--- a/mbd/robots/tt2d.py
+++ b/mbd/robots/tt2d.py
@@ -1487,10 +1487,7 @@ class TractorTrailer2d:
         def euler_np(dynamics, x, u, dt):
             """NumPy version of euler integration"""
             k1 = dynamics(x, u)
-            k2 = dynamics(x + dt / 2 * k1, u)
-            k3 = dynamics(x + dt / 2 * k2, u)
-            k4 = dynamics(x + dt * k3, u)
-            return x + dt / 6 * (k1 + 2 * k2 + 2 * k3 + k4)
+            return x + dt * k1
         
         def input_scaler_np(u_normalized):
             """NumPy version of input scaler"""
@@ -1575,11 +1572,11 @@ class TractorTrailer2d:
             center_c, r = circle[:2], circle[2]
             
             # tractor SDF
-            hd_trac = np.array([l1/2, tractor_width/2])
+            hd_trac = np.array([(l1 + lf1 + lr)/2, tractor_width/2])
             dt = _sdf_oriented_box_np(center_c, geom['tractor_center'], hd_trac, geom['tractor_angle'])
             
             # trailer SDF
-            hd_tral = np.array([l2/2, trailer_width/2])
+            hd_tral = np.array([(lf2 + lr2)/2, trailer_width/2])
             dtr = _sdf_oriented_box_np(center_c, geom['trailer_center'], hd_tral, geom['trailer_angle'])
             
             # subtract circle radius, then take the tighter (minimum)
@@ -1597,13 +1594,13 @@ class TractorTrailer2d:
             
             # tractor
             c_t = geom['tractor_center']
-            ht = np.array([l1/2, tractor_width/2])
+            ht = np.array([(l1 + lf1 + lr)/2, tractor_width/2])
             at = geom['tractor_angle']
             d1 = _sdf_two_boxes_np(c_t, ht, at, c_obs, hs_obs, oa)
             
             # trailer  
             c_r = geom['trailer_center']
-            hr = np.array([l2/2, trailer_width/2])
+            hr = np.array([(lf2 + lr2)/2, trailer_width/2])
             ar = geom['trailer_angle']
             d2 = _sdf_two_boxes_np(c_r, hr, ar, c_obs, hs_obs, oa)
             
-- 
2.43.0


From 89e372844586c2a4c90716d7e3ceb61fbcbe237e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 04/12] fix: place the last trailer of the n-trailer behind its
 predecessors

The reward's last-trailer position put every next hitch in front of the trailer
axle, while the collision geometry and the drawing put it behind the rear face.
---
 mbd/robots/n_trailer2d.py | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/mbd/robots/n_trailer2d.py b/mbd/robots/n_trailer2d.py
index 5096d2c..68d393c 100644
--- a/mbd/robots/n_trailer2d.py
+++ b/mbd/robots/n_trailer2d.py
@@ -235,13 +235,13 @@ class NTrailer2d(TractorTrailer2d):
             prev_hx, prev_hy, _, _ = carry
             theta_k = thetas[i]
             Lk = self.trailer_lengths[i]
-            lf_k = self.trailer_front_offsets[i]
+            lr_k = self.trailer_rear_offsets[i]
             # center at distance Lk behind hitch
             cx = prev_hx - Lk * jnp.cos(theta_k)
             cy = prev_hy - Lk * jnp.sin(theta_k)
-            # next hitch at front offset lf_k from center
-            next_hx = cx + lf_k * jnp.cos(theta_k)
-            next_hy = cy + lf_k * jnp.sin(theta_k)
+            # next hitch behind the rear face, as in get_tractor_trailer_rectangles_all
+            next_hx = cx - (lr_k + self.lh) * jnp.cos(theta_k)
+            next_hy = cy - (lr_k + self.lh) * jnp.sin(theta_k)
             return (next_hx, next_hy, cx, cy)
         # Initialize carry
         init = (hitch[0], hitch[1], hitch[0], hitch[1])
-- 
2.43.0


From b95f97ff23d1c2fe7b23005c06e7680dbb230f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 05/12] fix: charge the n-trailer's preference penalty for the
 applied control

The proposed control was charged even when the shield replaced it by a stop;
every other model charges what is actually applied.
---
 mbd/robots/n_trailer2d.py | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mbd/robots/n_trailer2d.py b/mbd/robots/n_trailer2d.py
index 68d393c..5b511af 100644
--- a/mbd/robots/n_trailer2d.py
+++ b/mbd/robots/n_trailer2d.py
@@ -160,7 +160,7 @@ class NTrailer2d(TractorTrailer2d):
         reward = self.get_reward(q_reward)
         reward = jnp.where(obstacle_collision, reward - self.collision_penalty, reward)
         reward = jnp.where(hitch_violation, reward - self.hitch_penalty, reward)
-        preference_penalty = self.get_preference_penalty(u_scaled)
+        preference_penalty = self.get_preference_penalty(self.input_scaler(applied_action))
         has_pref = self.motion_preference != 0
         reward = jnp.where(has_pref, reward - preference_penalty, reward)
         # NOTE: since apply fallback for all time steps drop the sample efficiency too much, we allow shielded 
-- 
2.43.0


From 8e9fe249a90d2308a18fc0d17877860299c6edc4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 06/12] fix: keep verbose, frame_skip and num_trailers of
 configuration dictionaries

---
 mbd/planners/mbd_planner.py | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mbd/planners/mbd_planner.py b/mbd/planners/mbd_planner.py
index 022c2bf..1a18b17 100644
--- a/mbd/planners/mbd_planner.py
+++ b/mbd/planners/mbd_planner.py
@@ -134,6 +134,7 @@ def dict_to_config_obj(config_dict):
         render=bool(config_dict["render"]),
         env_name=str(config_dict["env_name"]),
         case=str(config_dict["case"]),
+        verbose=bool(config_dict.get("verbose", False)),
         Nsample=int(config_dict["Nsample"]),
         Hsample=int(config_dict["Hsample"]),
         Ndiffuse=int(config_dict["Ndiffuse"]),
@@ -182,7 +183,9 @@ def dict_to_config_obj(config_dict):
         save_animation=bool(config_dict["save_animation"]),
         show_animation=bool(config_dict["show_animation"]),
         save_denoising_animation=bool(config_dict["save_denoising_animation"]),
+        frame_skip=int(config_dict.get("frame_skip", 1)),
         dt=float(config_dict["dt"]),
+        num_trailers=int(config_dict.get("num_trailers", 1)),
     )
 
 
-- 
2.43.0


From 99eaaf73705b47fb39153f792f75556b34d2ad86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 07/12] fix: let one tractor-trailer environment be animated
 more than once

Wheel patches of earlier animations were kept, so the second animation ran out
of wheel transforms (IndexError).
---
 mbd/robots/tt2d.py | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/mbd/robots/tt2d.py b/mbd/robots/tt2d.py
index 5bd8a7b..1a320d1 100644
--- a/mbd/robots/tt2d.py
+++ b/mbd/robots/tt2d.py
@@ -1304,6 +1304,7 @@ class TractorTrailer2d:
         wheel_length = 0.8
         
         # Tractor wheels (front and rear)
+        self.tractor_wheels = []
         for i in range(2):
             wheel = ax.add_patch(
                 plt.Rectangle((-wheel_length/2, -wheel_width/2),
@@ -1313,6 +1314,7 @@ class TractorTrailer2d:
             self.tractor_wheels.append(wheel)
         
         # Trailer wheels
+        self.trailer_wheels = []
         for i in range(1):
             wheel = ax.add_patch(
                 plt.Rectangle((-wheel_length/2, -wheel_width/2),
-- 
2.43.0


From 43ef64011e0fbe4c9ff5ac834bfa81ee09b5f12a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:14 +0000
Subject: [PATCH 08/12] fix: let reset see start positions set after an earlier
 reset

reset was compiled with the environment as a static argument, which froze the
first start position; setting a new one had no effect afterwards.
---
 mbd/robots/acc_tt2d.py            | 3 +--
 mbd/robots/kinematic_bicycle2d.py | 3 +--
 mbd/robots/tt2d.py                | 3 +--
 3 files changed, 3 insertions(+), 6 deletions(-)

diff --git a/mbd/robots/acc_tt2d.py b/mbd/robots/acc_tt2d.py
index a5df03b..53d7c41 100644
--- a/mbd/robots/acc_tt2d.py
+++ b/mbd/robots/acc_tt2d.py
@@ -74,10 +74,9 @@ class AccTractorTrailer2d(TractorTrailer2d):
         # Extend to 6D state with goal v and delta
         self.xg = jnp.concatenate([self.xg, jnp.array([v, delta])])
 
-    @partial(jax.jit, static_argnums=(0,))
     def reset(self, rng: jax.Array):
         """Resets the environment to an initial state."""
-        return State(self.x0, self.x0, 0.0, 0.0, jnp.zeros(2), jnp.array(False))
+        return State(self.x0, self.x0, jnp.array(0.0), jnp.array(0.0), jnp.zeros(2), jnp.array(False))
 
     @partial(jax.jit, static_argnums=(0,))
     def input_scaler(self, u_normalized):
diff --git a/mbd/robots/kinematic_bicycle2d.py b/mbd/robots/kinematic_bicycle2d.py
index 83cc3a1..79c50cf 100644
--- a/mbd/robots/kinematic_bicycle2d.py
+++ b/mbd/robots/kinematic_bicycle2d.py
@@ -74,10 +74,9 @@ class KinematicBicycle2d(TractorTrailer2d):
         self.xg = jnp.array([new_x, new_y, new_theta1])
         logging.debug(f"overwrite xg: {self.xg}")
 
-    @partial(jax.jit, static_argnums=(0,))
     def reset(self, rng: jax.Array):
         """Resets the environment to an initial state (3D)."""
-        return State(self.x0, self.x0, 0.0, 0.0, jnp.zeros(2), jnp.array(False))
+        return State(self.x0, self.x0, jnp.array(0.0), jnp.array(0.0), jnp.zeros(2), jnp.array(False))
     
     @partial(jax.jit, static_argnums=(0,))
     def bicycle_dynamics(self, x, u):
diff --git a/mbd/robots/tt2d.py b/mbd/robots/tt2d.py
index 1a320d1..04e36d3 100644
--- a/mbd/robots/tt2d.py
+++ b/mbd/robots/tt2d.py
@@ -260,10 +260,9 @@ class TractorTrailer2d:
         """Set circular obstacles"""
         self.obs_circles = self.env.set_circle_obs(circles, padding=padding)
 
-    @partial(jax.jit, static_argnums=(0,))
     def reset(self, rng: jax.Array):
         """Resets the environment to an initial state."""
-        return State(self.x0, self.x0, 0.0, 0.0, jnp.zeros(2), jnp.array(False))
+        return State(self.x0, self.x0, jnp.array(0.0), jnp.array(0.0), jnp.zeros(2), jnp.array(False))
     
     @partial(jax.jit, static_argnums=(0,))
     def input_scaler(self, u_normalized):
-- 
2.43.0


From 67a1e8cfa850e607c19780ddbe398b1e201d70c0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 09/12] fix: penalise violations that remain after projection

The projection falls back to the original control when the solver fails, yet
the step assumed the result to be safe and never charged the penalties. The
bicycle model already checked.
---
 mbd/robots/acc_tt2d.py | 5 +++--
 mbd/robots/tt2d.py     | 5 +++--
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/mbd/robots/acc_tt2d.py b/mbd/robots/acc_tt2d.py
index 53d7c41..58e3fe2 100644
--- a/mbd/robots/acc_tt2d.py
+++ b/mbd/robots/acc_tt2d.py
@@ -144,8 +144,9 @@ class AccTractorTrailer2d(TractorTrailer2d):
             u_safe_scaled = self.input_scaler(u_safe_normalized)  # Scale to actual ranges
             q_final = euler(self.tractor_trailer_dynamics, q, u_safe_scaled, self.dt)
             q_reward = q_final  # For projection, q_reward = q_final
-            obstacle_collision = False  # Guaranteed safe by projection
-            hitch_violation = False     # Guaranteed safe by projection
+            # The solver may fail to find a safe control, so check what it returned
+            obstacle_collision = self.check_obstacle_collision(q_final[:4], self.obs_circles, self.obs_rectangles)
+            hitch_violation = self.check_hitch_violation(q_final[:4])
             applied_action = u_safe_normalized
             backup_active_next = backup_active_prev
         elif self.enable_guidance:
diff --git a/mbd/robots/tt2d.py b/mbd/robots/tt2d.py
index 04e36d3..51173b8 100644
--- a/mbd/robots/tt2d.py
+++ b/mbd/robots/tt2d.py
@@ -318,8 +318,9 @@ class TractorTrailer2d:
             u_safe_scaled = self.input_scaler(u_safe_normalized)  # Scale to actual ranges
             q_final = euler(self.tractor_trailer_dynamics, q, u_safe_scaled, self.dt)
             q_reward = q_final  # For projection, q_reward = q_final
-            obstacle_collision = False  # Guaranteed safe by projection
-            hitch_violation = False     # Guaranteed safe by projection
+            # The solver may fail to find a safe control, so check what it returned
+            obstacle_collision = self.check_obstacle_collision(q_final, self.obs_circles, self.obs_rectangles)
+            hitch_violation = self.check_hitch_violation(q_final)
             applied_action = u_safe_normalized
             backup_active_next = backup_active_prev
         elif self.enable_guidance:
-- 
2.43.0


From 8b306edd10714711dabc217e1553f4279e701a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:31 +0000
Subject: [PATCH 10/12] fix: keep the parking lot in place when the plot limits
 change

The lot's origin was derived from the current plot limits, so zooming a plot
moved the parking spaces (and later start positions) off their obstacles.
---
 mbd/envs/env.py                   | 8 ++++----
 mbd/robots/kinematic_bicycle2d.py | 2 +-
 mbd/robots/tt2d.py                | 2 +-
 mbd/utils.py                      | 4 ++--
 4 files changed, 8 insertions(+), 8 deletions(-)

diff --git a/mbd/envs/env.py b/mbd/envs/env.py
index 9ef8b95..73a7413 100644
--- a/mbd/envs/env.py
+++ b/mbd/envs/env.py
@@ -97,7 +97,7 @@ class Env:
         
         # Starting position of parking lot (bottom-left corner)
         parking_start_x = -parking_lot_width / 2
-        parking_start_y = self.y_range[0] + y_offset
+        parking_start_y = -self.height / 2 + y_offset
         
         # Create obstacles for occupied spaces
         for space_num in occupied_spaces:
@@ -134,7 +134,7 @@ class Env:
         parking_lot_width = cols * space_width
         parking_lot_height = rows * space_length
         parking_start_x = -parking_lot_width / 2
-        parking_start_y = self.y_range[0] + y_offset
+        parking_start_y = -self.height / 2 + y_offset
         
         # Convert 1-indexed space number to row, col (0-indexed)
         space_idx = space_num - 1
@@ -151,8 +151,8 @@ class Env:
         """Get default initial position"""
         if case == "parking":
             # Start from left top corner
-            start_x = self.x_range[0] + 2.0  # Small offset from boundary
-            start_y = self.y_range[1] - 2.0  # Small offset from top
+            start_x = -self.width / 2 + 2.0  # Small offset from boundary
+            start_y = self.height / 2 - 2.0  # Small offset from top
             theta1 = 0.1  # Nearly zero angle
             theta2 = 0.1  # Nearly zero angle
         else:
diff --git a/mbd/robots/kinematic_bicycle2d.py b/mbd/robots/kinematic_bicycle2d.py
index 79c50cf..111e471 100644
--- a/mbd/robots/kinematic_bicycle2d.py
+++ b/mbd/robots/kinematic_bicycle2d.py
@@ -430,7 +430,7 @@ class KinematicBicycle2d(TractorTrailer2d):
             parking_lot_width = cols * space_width
             parking_lot_height = rows * space_length
             parking_start_x = -parking_lot_width / 2
-            parking_start_y = self.env.y_range[0] + y_offset
+            parking_start_y = -self.env.height / 2 + y_offset
             
             # Draw parking space boundaries
             for row in range(rows + 1):
diff --git a/mbd/robots/tt2d.py b/mbd/robots/tt2d.py
index 51173b8..9637b59 100644
--- a/mbd/robots/tt2d.py
+++ b/mbd/robots/tt2d.py
@@ -1192,7 +1192,7 @@ class TractorTrailer2d:
             parking_lot_width = cols * space_width
             parking_lot_height = rows * space_length
             parking_start_x = -parking_lot_width / 2
-            parking_start_y = self.env.y_range[0] + y_offset  # Bottom of parking area
+            parking_start_y = -self.env.height / 2 + y_offset  # Bottom of parking area
             
             # Draw parking space boundaries
             for row in range(rows + 1):
diff --git a/mbd/utils.py b/mbd/utils.py
index a4c4f64..41d10e0 100644
--- a/mbd/utils.py
+++ b/mbd/utils.py
@@ -219,7 +219,7 @@ def create_animation(env, trajectory_states, trajectory_actions, args, guided_tr
         parking_lot_width = cols * space_width
         parking_lot_height = rows * space_length
         parking_start_x = -parking_lot_width / 2
-        parking_start_y = y_range[0] + y_offset
+        parking_start_y = -env.env.height / 2 + y_offset
         
         # Draw parking space boundaries
         for row in range(rows + 1):
@@ -507,7 +507,7 @@ def create_denoising_animation(env, Yi, args, step_env_jit, state_init, frame_sk
         parking_lot_width = cols * space_width
         parking_lot_height = rows * space_length
         parking_start_x = -parking_lot_width / 2
-        parking_start_y = y_range[0] + y_offset
+        parking_start_y = -env.env.height / 2 + y_offset
         
         # Draw parking space boundaries
         for row in range(rows + 1):
-- 
2.43.0


From b61fe3acd871299ff6d479ad865081750a46a5e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:00 +0000
Subject: [PATCH 11/12] fix: let the predicted braking manoeuvre of the
 acceleration shield stop

The braking command was chosen once, for the control period, and then applied
for 1 s steps without change, so the prediction reversed and accelerated
backwards: free motions were rejected because of obstacles behind the vehicle.
---
 mbd/robots/acc_tt2d.py | 19 +++++++++----------
 1 file changed, 9 insertions(+), 10 deletions(-)

diff --git a/mbd/robots/acc_tt2d.py b/mbd/robots/acc_tt2d.py
index 58e3fe2..9f47412 100644
--- a/mbd/robots/acc_tt2d.py
+++ b/mbd/robots/acc_tt2d.py
@@ -35,7 +35,7 @@ class AccTractorTrailer2d(TractorTrailer2d):
         # Use larger time step for predictive rollout to reduce computation
         self._rollout_dt = 1.0  # seconds - larger dt for rollout; it is for prediction only
         self._v_threshold = 0.01  # velocity threshold for rollout decision
-        self._max_rollout_steps = int(2.0 * (self.v_max-0.0) / (self.a_max * self._rollout_dt))
+        self._max_rollout_steps = max(1, int(2.0 * (self.v_max-0.0) / (self.a_max * self._rollout_dt)))
         
         # Override initial state to include v and delta (initialized to zero)
         if hasattr(self, 'x0'):
@@ -276,9 +276,13 @@ class AccTractorTrailer2d(TractorTrailer2d):
     @partial(jax.jit, static_argnums=(0,))
     def _rollout_step(self, carry, _):
         """Single step of the rollout-to-stop process (JIT-optimized)"""
-        q_curr, stopped, obs_collision_any, hitch_violation_any, u_stop = carry
+        q_curr, stopped, obs_collision_any, hitch_violation_any = carry
         v_curr = q_curr[4]
         
+        # Brake towards standstill, at most down to zero so that the prediction never reverses
+        a_stop = -jnp.sign(v_curr) * jnp.clip(jnp.abs(v_curr) / self._rollout_dt, 0, self.a_max)
+        u_stop = jnp.array([a_stop, 0.0])
+        
         # Continue rollout if not stopped
         should_continue = jnp.abs(v_curr) > self._v_threshold
         q_next = jnp.where(should_continue, euler(self.tractor_trailer_dynamics, q_curr, u_stop, self._rollout_dt), q_curr)
@@ -294,7 +298,7 @@ class AccTractorTrailer2d(TractorTrailer2d):
         # Update stopped flag (using same threshold as rollout decision)
         stopped_next = stopped | (jnp.abs(q_next[4]) <= self._v_threshold)
         
-        return (q_next, stopped_next, obs_collision_any, hitch_violation_any, u_stop), None
+        return (q_next, stopped_next, obs_collision_any, hitch_violation_any), None
 
     @partial(jax.jit, static_argnums=(0,))
     def _check_safety_with_rollout(self, data):
@@ -305,14 +309,9 @@ class AccTractorTrailer2d(TractorTrailer2d):
         obstacle_collision_new = self.check_obstacle_collision(q_new[:4], self.obs_circles, self.obs_rectangles)
         hitch_violation_new = self.check_hitch_violation(q_new[:4])
         
-        # Determine deceleration direction from q_new
-        decel_sign = jnp.where(v_new > self._v_threshold, -1.0, jnp.where(v_new < -self._v_threshold, 1.0, 0.0))
-        a_backup = jnp.clip(jnp.abs(v_new/self.dt), 0, self.a_max)
-        u_stop = jnp.array([decel_sign * a_backup, 0.0])
-        
         # Run rollout with pre-computed maximum steps using JIT-optimized rollout step
-        init_carry = (q_new, False, obstacle_collision_new, hitch_violation_new, u_stop)
-        (q_final, _, obstacle_collision_any, hitch_violation_any, _), _ = jax.lax.scan(
+        init_carry = (q_new, False, obstacle_collision_new, hitch_violation_new)
+        (q_final, _, obstacle_collision_any, hitch_violation_any), _ = jax.lax.scan(
             self._rollout_step, init_carry, None, length=self._max_rollout_steps
         )
         
-- 
2.43.0


From cee5ad41a0e7bd6c9a180d22f86c9488bda27dcc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:11:35 +0000
Subject: [PATCH 12/12] fix: start rollouts from the given state

The no-op step that aligned the carry's types also moved the state: a vehicle
with initial speed (acceleration model) was rolled out from one step later than
the trajectory that is executed afterwards.
---
 mbd/utils.py | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/mbd/utils.py b/mbd/utils.py
index 41d10e0..98e24c1 100644
--- a/mbd/utils.py
+++ b/mbd/utils.py
@@ -23,13 +23,17 @@ def eval_us(step_env, state, us):
     _, rew_seq = jax.lax.scan(step, state, us)
     return rew_seq
 
+def _match_step_dtypes(step_env, state, us):
+    """Cast the initial state to the types a step returns (scan carry), without moving it"""
+    zero_u = jnp.zeros_like(us[0]) if us.shape[0] > 0 else jnp.zeros((2,))
+    stepped = step_env(state, zero_u)
+    return jax.tree_util.tree_map(lambda x, s: jnp.asarray(x, dtype=jnp.result_type(s)), state, stepped)
+
 def rollout_us(step_env, state, us):
     def step(state, u):
         state = step_env(state, u)
         return state, (state.reward, state.pipeline_state, state.applied_action)
-    # Warm-initialize carry to match shape if necessary by a no-op step
-    zero_u = jnp.zeros_like(us[0]) if us.shape[0] > 0 else jnp.zeros((2,))
-    state_init = step_env(state, zero_u)
+    state_init = _match_step_dtypes(step_env, state, us)
     final_state, (rew_seq, pipeline_state_seq, applied_action_seq) = jax.lax.scan(step, state_init, us) # NOTE: returns stack of (rew, pipeline_state, applied_action). _ is the final carry, which is final state in this case
     return rew_seq, pipeline_state_seq, applied_action_seq
 
@@ -38,8 +42,7 @@ def rollout_us_with_terminal(step_env, env, state, us):
     def step(state, u):
         state = step_env(state, u)
         return state, (state.reward, state.pipeline_state, state.applied_action)
-    zero_u = jnp.zeros_like(us[0]) if us.shape[0] > 0 else jnp.zeros((2,))
-    state_init = step_env(state, zero_u)
+    state_init = _match_step_dtypes(step_env, state, us)
     final_state, (rew_seq, pipeline_state_seq, applied_action_seq) = jax.lax.scan(step, state_init, us)
     
     # Compute mean of stage rewards first, then add separate terminal reward
-- 
2.43.0

