#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one property per line)."""
import json, os
P = []
def p(id, title, statement, over, text, why, files, mech, state=(), observe=(), hook=False):
    P.append(dict(id=id, title=title, statement=statement,
        quantifier=dict(over=over, text=text), why_tests_cant=why,
        anchors=dict(files=files,
            mechanism=[dict(name=n, where=w) for n, w in mech],
            state=[dict(name=n, meaning=m, where=w) for n, m, w in state],
            observe_at=list(observe), hook_needed=hook)))

IMUP="src/filter/inekf/propagation/imu_propagation.cpp"
VC="src/filter/inekf/correction/velocity_correction.cpp"
LC="src/filter/inekf/correction/legged_kinematics_correction.cpp"
EST="src/estimator/inekf_estimator.cpp"
INE="src/filter/inekf/inekf.cpp"
RS="src/state/robot_state.cpp"
GY="src/imu_filter/imu_ang_vel_ekf.cpp"
MC="src/kinematics/mini_cheetah_kinematics.cpp"

p("M01","Lie-group exponentials, their integrals and Jacobians equal their series",
  "For every rotation vector, from exactly zero through tiny, ordinary and many-turn magnitudes, the SO(3) exponential, its iterated integrals of any order, the left and right Jacobians and the skew map equal the values of their defining power series to floating-point accuracy. The SE_K(3) exponential of any twist with any number of translation-like columns equals the matrix exponential of that twist. No magnitude range has a discontinuity or loss of accuracy.",
  ["inputs"],"All rotation vectors over 1e-300..1e3 rad (log-uniform magnitude, all directions, axis-aligned and branch-threshold values included), all series orders 0..30 and all column counts K=1..6.",
  "The tests evaluate a handful of fixed O(1) vectors; cancellation and small-angle branches are only visible across magnitudes of the continuous input.",
  ["src/math/lie_group.cpp","include/drift/math/lie_group.h"],
  [("Gamma_SO3 closed form and small-angle branch","src/math/lie_group.cpp Gamma_SO3"),("Exp_SEK3 column-wise left Jacobian","src/math/lie_group.cpp Exp_SEK3"),("Jacobians","src/math/lie_group.cpp LeftJacobian_SO3/RightJacobian_SO3")],
  observe=["return values of the public math functions"])
p("M02","Pose group: composition, inverse and adjoint obey the group laws",
  "For every group element built from a rotation, and any number of columns, the adjoint satisfies X exp(xi) X^-1 = exp(Ad_X xi), inverse and composition give the identity and are associative, and the compact container agrees with plain matrix algebra. Building an element from parts, from a matrix or by accessors yields the same element.",
  ["inputs"],"All elements with K=1..5 columns, rotations of any angle (near 0 and near pi included) and columns over 1e-6..1e6.",
  "The tests check a few fixed K=2 cases; the laws quantify over all elements and over K.",
  ["src/math/se_k_3.cpp","src/math/lie_group.cpp","include/drift/math/se_k_3.h"],
  [("adjoint assembly","src/math/lie_group.cpp Adjoint_SEK3"),("container algebra","src/math/se_k_3.cpp SEK3::inverse/operator*")],
  observe=["return values of the public math functions and of the container accessors"])
p("F01","IMU propagation integrates the strapdown kinematics exactly over each interval",
  "Between two inertial samples the estimate of orientation, velocity and position moves by the exact solution of the rigid-body kinematics under the sample being applied, held constant: readings rotated into the body frame, current biases removed, lever-arm acceleration removed, gravity (0,0,-9.80) added, over the elapsed time since the last propagation. Everything else in the state (contact positions, biases, bookkeeping) is untouched and the state time becomes the sample time. A step taken while no new sample exists changes nothing.",
  ["inputs","histories","configurations"],"All inertial readings, biases, mounting rotations and offsets, time steps from microseconds to seconds (irregular and repeated), in every multi-step history and both bias-update settings.",
  "Tests integrate a few constant samples from identity with zero biases; the statement quantifies over state, sensor mounting and step history.",
  [IMUP,"include/drift/filter/inekf/propagation/imu_propagation.h"],
  [("Propagate","imu_propagation.cpp ImuPropagation::Propagate"),("mounting rotation, lever arm","imu_propagation.cpp Propagate, constructor")],
  [("previous sample","sample that is held over the interval","ImuPropagation::prev_imu_measurement_"),("propagation time","time of the last propagation","RobotState time")],
  ["state after each estimator step"])
p("F02","Covariance propagation is the exact transition of the linearised error dynamics",
  "At every inertial step the covariance becomes Phi (P + G Q G' dt) Phi' where Phi is the exact matrix exponential of the invariant error dynamics over the interval, for rotation rates from zero to very fast and any step length. The process noise contains the configured gyro, accelerometer, contact and (only when enabled) bias densities in their own blocks, mapped by the error convention. The result does not jump when the rotation angle per step crosses any threshold.",
  ["inputs","histories","configurations"],"All rates (0..50 rad/s), steps (1e-6..1 s), states, prior covariances, both error conventions, both bias settings and 0..4 tracked contacts.",
  "Tests never compare the covariance with an independent reference; a wrong transition block still gives a plausible trajectory.",
  [IMUP],
  [("analytic state transition matrix","imu_propagation.cpp StateTransitionMatrix"),("noise mapping","imu_propagation.cpp DiscreteNoiseMatrix")],
  [("covariance","error covariance [R,v,p,contacts,bg,ba]","RobotState P"),("process noise","continuous noise density matrix","RobotState Qc")],
  ["covariance after each step"])
p("F03","Left- and right-invariant error conventions give one and the same estimate",
  "Two filters that differ only in the configured error convention and whose initial uncertainties describe the same distribution produce, on the same inputs, the same mean, and covariances related by the adjoint of the mean, after any mixture of propagation and corrections. Covariance conversion between the conventions is the adjoint map and its inverse, and round-trips.",
  ["inputs","histories","configurations"],"All input histories of inertial, velocity and legged measurements; differences are compared to the accuracy to which the first-order filters coincide (a single correction agrees exactly, chains agree step by step from a common state).",
  "The tests run each convention alone on separate samples; the relation between two executions is never observed.",
  [INE,IMUP,VC,LC],
  [("correction in left/right form","inekf.cpp CorrectRightInvariant/CorrectLeftInvariant"),("covariance conversions","RobotState get_cov / inekf.cpp")],
  observe=["mean and covariance of paired filters after each step"])
p("F04","Estimates are equivariant under a change of heading and origin",
  "Running the filter from a start that is rotated about gravity and translated gives exactly the rotated and translated trajectory, with identical body-frame quantities, biases and correspondingly transformed covariance. Heading and absolute position therefore never influence the filter's behaviour, only its coordinates.",
  ["inputs","histories","configurations"],"All yaw angles and translations, all histories of inertial, velocity and contact measurements, both error conventions, with and without bias estimation and contact points.",
  "A relation between two whole runs; the unit tests observe single runs from the identity.",
  [INE,IMUP,VC,LC],
  [("group-affine propagation","imu_propagation.cpp Propagate"),("invariant innovation","velocity_correction.cpp, legged_kinematics_correction.cpp Correct")],
  observe=["states of paired filters after each step"])
p("F05","A velocity measurement produces the invariant Kalman update",
  "A body-frame velocity measurement, rotated by the configured mounting, scaled and given the configured noise, changes mean and covariance exactly as the optimal invariant Kalman update does (gain, exponential retraction, symmetric covariance update), for either error convention. Consistent measurements change nothing in the mean, and the pose and velocity uncertainty never grows.",
  ["inputs","histories","configurations"],"All states and positive-definite covariances (scales 1e-8..1e4), measurements, noises, scales and mounting rotations, both conventions and bias settings, with 0..4 tracked contacts.",
  "Tests feed a few velocities into an identity state and look at the mean only; gain, retraction and covariance algebra over arbitrary correlated states are not pinned.",
  [VC,INE],
  [("innovation and noise","velocity_correction.cpp VelocityCorrection::Correct"),("update","inekf.cpp InEKF::Correct*")],
  observe=["mean and covariance after each correction"])
p("F06","A legged-kinematics measurement produces the contact-aided Kalman update",
  "When a legged measurement reports feet that stay in contact, mean and covariance change exactly as the invariant Kalman update with one stacked position constraint per such foot, using encoder noise mapped through the leg Jacobian plus additive kinematic noise. A foot that touches down is added at the position implied by the pose and kinematics with the uncertainty implied by both, and a foot that lifts off is marginalised out without altering anything else.",
  ["inputs","histories","configurations"],"All foot positions, joint Jacobians, noises, correlated states and covariances, all 16 contact patterns and their transitions, both conventions and bias settings.",
  "Tests use one contact pattern at the identity; the algebra must hold on arbitrary correlated states and every transition.",
  [LC,INE,RS],
  [("stacked update, augmentation, marginalisation","legged_kinematics_correction.cpp LeggedKinematicsCorrection::Correct"),("state growth","robot_state.cpp add_aug_state/del_aug_state")],
  [("contact map","leg id to tracked column","LeggedKinematicsCorrection::aug_id_to_column_id_")],
  ["mean and covariance after each correction"])
p("F07","Contact bookkeeping is exact over any touchdown and lift-off history",
  "After any sequence of contact reports, the tracked contacts are exactly the feet reported in contact by the last processed report, and each one keeps its own position, its own covariance and cross-covariances, and its own process noise, however many others were added or removed around it and in whatever order. Bias uncertainty and bias noise are never displaced by contact changes, and a change of contacts never alters the rest of the state.",
  ["histories","inputs"],"All histories of contact subsets of four legs (up to hundreds of transitions) interleaved with propagation and velocity corrections, both conventions and bias settings.",
  "Index bookkeeping errors only show for particular add/remove orders with several contacts alive; tests cover one add and one remove.",
  [LC,RS,"include/drift/state/robot_state.h"],
  [("augment/remove with column renumbering","robot_state.cpp add_aug_state/del_aug_state"),("contact map","legged_kinematics_correction.cpp Correct")],
  [("aug columns","contact positions","RobotState X_ columns 5.."),("noise blocks","contact process noise","RobotState Qc_ blocks")],
  ["contact positions, covariance and noise blocks after each step"])
p("F08","Every published estimate is a valid state",
  "On every finite input stream the estimator accepts, every state it exposes has an orientation that is a rotation, a well-formed homogeneous matrix, a finite mean, and a finite symmetric positive semidefinite covariance whose dimension matches the tracked contacts and biases. This holds at every step of long runs, not only eventually.",
  ["inputs","histories","configurations"],"All finite sensor streams with moderate and extreme magnitudes (rates to 50 rad/s, accelerations to 500 m/s2, noise settings 1e-6..1e2, gaps, bursts, drop-outs), thousands of steps, all configurations.",
  "An invariant over all reachable states of long runs; the tests look at a few final values.",
  [INE,IMUP,RS,EST],
  [("symmetrised, Joseph-form update","inekf.cpp"),("exponential retraction","lie_group.cpp Exp_SEK3")],
  observe=["every state in the published stream"])
p("F09","Bias policy: frozen when disabled, heading gyro bias never corrected",
  "With bias estimation disabled the gyroscope and accelerometer biases keep the value fixed at initialisation bit for bit and never become correlated with the rest of the state. With it enabled they move only through corrections, never through propagation, and the gyro bias about the vertical body axis is never changed by a correction.",
  ["inputs","histories","configurations"],"All measurement histories and both settings, both error conventions, all correction kinds, non-zero initial biases.",
  "Tests run with zero biases and do not watch them over mixed histories.",
  [INE,IMUP,RS],
  [("bias handling in update","inekf.cpp Correct*"),("bias handling in propagation","imu_propagation.cpp Propagate")],
  [("biases","gyro and accel bias","RobotState Theta")],
  ["biases and their covariance blocks after each step"])
p("S01","Measurements are consumed in order, exactly once, at the right time",
  "Each estimator step consumes inertial samples one at a time in arrival order; each correction source applies at most one queued measurement per step, in arrival order, and discards only those older than the configured threshold. A velocity measurement that lies in the future of the propagated state is neither used nor lost; a legged measurement is used when it lies within the threshold on either side. Every accepted measurement influences the estimate exactly once and every other is left queued or discarded, and the step reports that the state changed if and only if it did.",
  ["histories","inputs","configurations"],"All interleavings of inertial and correction time stamps (late, early, duplicate, out-of-order, bursts, gaps), all thresholds, one and several correction sources.",
  "The tests push samples in lock-step; the gating logic only matters for skewed histories.",
  [EST,IMUP,VC,LC],
  [("time gating","velocity_correction.cpp / legged_kinematics_correction.cpp Correct"),("propagation queue","imu_propagation.cpp Propagate"),("step","inekf_estimator.cpp RunOnce")],
  [("measurement queues","pending samples","sensor data buffers")],
  ["queue contents and state before and after each step"])
p("S02","Published states: one faithful, immutable snapshot per informative step",
  "Each step that changes the estimate publishes exactly one state, equal to the estimator's state right after that step, in order, and steps that change nothing publish nothing. A published state never changes afterwards, whatever the estimator or its consumers do next, and readers always see a complete state.",
  ["histories","schedules","inputs"],"All histories of informative and idle steps, with consumers that keep, drain late or modify states.",
  "Needs the whole published history to be compared with the step history; tests pop one state.",
  [EST,"include/drift/estimator/inekf_estimator.h"],
  [("publication","inekf_estimator.cpp RunOnce/InitState")],
  [("published queue","states for consumers","robot state queue")],
  ["published queue, estimator state accessor"])
p("S03","Initialisation reproduces what sensors and settings say about the start",
  "After initialisation the state is what the sensors and settings say: orientation from the inertial unit's attitude (or identity), position zero, velocity from the latest velocity or leg measurement expressed in the world frame through mounting and scale, biases from the configured prior or from the average over exactly the configured number of static samples, variances from the configured standard deviations, time from the consumed samples. It consumes only the samples it needs and the filter is not enabled before initialisation is complete. With zero static samples the prior is kept.",
  ["inputs","configurations","histories"],"All attitudes, static readings, sample counts (0..500), prior biases, mounting rotations, velocity scales, both bias modes and initial variance settings.",
  "Tests initialise from one fixed sample with the identity mounting.",
  [EST,IMUP,VC,LC],
  [("bias initialisation","imu_propagation.cpp InitImuBias"),("state initialisation","inekf_estimator.cpp InitState, imu_propagation.cpp set_initial_state, corrections initialize")],
  observe=["state and queues after initialisation"])
p("S04","Reset returns the estimator to its freshly constructed behaviour",
  "After a reset no queued measurement, published state, tracked contact, log entry or estimate from before can influence anything afterwards: fed the same new session, the estimator behaves exactly as it did in its first session (a bias calibration made from static samples at start-up counts as configuration and is kept). Any number of sessions can follow each other.",
  ["histories","configurations"],"All first-session histories (any pending queues, any contacts, reset mid-initialisation) followed by any second session; velocity and legged corrections, both error conventions, known biases.",
  "Tests never run a second session after a reset.",
  [EST,IMUP,VC,LC,GY,RS],
  [("clear","inekf_estimator.cpp clear and the clear functions it calls")],
  observe=["state trajectory after reset versus a fresh run"])
p("S05","Determinism, instance isolation and independence of batching",
  "The trajectory is a function of the measurement sequence, the configuration and the initial state only: repeated runs agree bit for bit, instances in one process do not influence each other, and how far ahead inertial samples are queued or how many idle steps are taken between arrivals does not change the result.",
  ["histories","schedules","configurations"],"All input streams; paired runs with different queueing, idle steps and interleaved second instances with other configurations.",
  "A relation between several runs that unit tests do not make.",
  [EST,IMUP,VC,LC,RS],
  [("per-instance state","inekf_estimator, imu_propagation, corrections"),("step","inekf_estimator.cpp RunOnce")],
  observe=["trajectories of paired runs"])
p("S06","The trajectory logs record the published states faithfully and completely",
  "With logging enabled, the pose, world-velocity and body-velocity logs contain, in time order, exactly the published states selected by the configured rate, with values that read back to the logged state, in the documented line format; with logging disabled no file is written. A reset starts new log files and never lets a record of one session into the files of another, and everything produced since is written when the estimator is destroyed.",
  ["histories","schedules","configurations","inputs"],"All rates, paths (with and without extension or dotted directories), trajectories, resets and shutdown moments.",
  "The writer runs in its own thread; completeness and session separation depend on the schedule.",
  [EST,"include/drift/estimator/inekf_estimator.h"],
  [("logger thread","inekf_estimator.cpp StartLoggingThread/RunLoggingThread"),("log file rollover","inekf_estimator.cpp clear")],
  [("log queue","states awaiting writing","log state queue")],
  ["log files versus published states"])
p("S07","Every documented setting takes effect, and missing settings mean their defaults",
  "Each documented setting of the estimator, propagation, corrections and gyro filter changes the behaviour it documents by the amount given, whichever subset of settings is present; an absent setting means its documented default and never affects the others. The configuration files that ship with the project load, and the settings in them are the ones in force.",
  ["configurations"],"All subsets of settings with random legal values, and all shipped configuration files.",
  "Tests load two fixed files and check few values.",
  [EST,IMUP,VC,LC,GY,"config/"],
  [("setting readers","constructors of the estimator, propagation, corrections and gyro filter")],
  observe=["parameters and resulting behaviour after construction"])
p("C01","The multi-threaded pipeline is free of data races and deadlocks",
  "In the documented deployment, where sensor threads append to shared buffers under their locks while the estimator thread initialises, steps and resets, the logger writes and consumers drain states and query them, there is no data race and no deadlock. This includes start-up, reset and shutdown.",
  ["schedules"],"All interleavings of producers, estimator, logger, gyro filter, consumers and shutdown sampled under stress, injected delays and several thread placements.",
  "Races need particular schedules and a happens-before monitor; the tests are single threaded.",
  [EST,IMUP,VC,LC,GY],
  [("buffer locking","every access to a shared buffer"),("logger locking","inekf_estimator.cpp RunLoggingThread")],
  observe=["ThreadSanitizer reports, watchdog"])
p("C02","No memory error or undefined behaviour on any input or history",
  "No sequence of public operations with well-formed inputs, in any order the interface allows, for any configuration, touches memory it does not own, reads an uninitialised value, dereferences nothing, overflows an index, violates a size requirement of the matrix library or otherwise has undefined behaviour. Missing measurements and empty buffers are handled, not dereferenced.",
  ["inputs","histories","configurations"],"Random API programs over all public classes: construction variants, empty queues, resets, contact churn, state surgery, logging, gyro filters, kinematics.",
  "Undefined behaviour is invisible to value assertions; it needs instrumentation and diverse histories.",
  ["src/","include/drift/"],
  [("index arithmetic on dynamic matrices","robot_state.cpp, inekf.cpp, corrections"),("queue handling","estimator, propagation, corrections, gyro filter")],
  observe=["ASan, UBSan, valgrind, library assertions"])
p("C03","Concurrent operation conserves measurements and always makes progress",
  "With producers, estimator, logger and consumers running concurrently, every measurement pushed is consumed at most once and in order, states published equal states received plus states still queued, and the result equals that of a sequential run on the same accepted order. Every call returns in bounded time, start-up and shutdown terminate, and destruction joins all threads.",
  ["schedules","histories"],"All interleavings sampled with random delays, thread counts and burst sizes; destruction and reset at random moments.",
  "Conservation across threads depends on the schedule; tests have one thread.",
  [EST,GY,IMUP],
  [("step and queues","inekf_estimator.cpp RunOnce"),("thread lifecycle","destructors and StartLoggingThread/StartFilterThread")],
  observe=["event logs of producers and consumers, final state versus sequential replay, watchdog"])
p("G01","The gyro filter is the exact linear Kalman filter it documents",
  "After each step the fused angular velocity, gyro-bias estimate and covariance equal those of the Kalman filter with the configured motion model, observing inertial readings (rate plus bias) and encoder rates in the inertial frame, with the configured noises; on flat ground all axes of the encoder rate are observed, otherwise only the vertical one. The bias is initialised from the configured number of static samples or the prior.",
  ["inputs","histories","configurations"],"All readings, biases, mounting rotations, noise settings, motion models, correction methods and mixed histories.",
  "Tests look at coarse convergence of a few constant inputs.",
  [GY,"include/drift/imu_filter/imu_ang_vel_ekf.h"],
  [("filter steps","imu_ang_vel_ekf.cpp Propagation and corrections"),("initialisation","imu_ang_vel_ekf.cpp InitializeFilter")],
  [("estimate","rate and bias","X_"),("covariance","6x6","P_")],
  ["estimate and covariance after each step"])
p("G02","The gyro filter consumes its streams correctly and emits faithful fused samples",
  "In every mode the gyro filter consumes each queued inertial and encoder sample at most once, in time order across an inertial and an encoder source, ignores those older than the threshold, and emits for each fused sample one inertial measurement that carries the original acceleration, orientation and time with the filtered rate. It never blocks, loses samples that are still in the future, or emits anything before it is initialised; a reset empties its queues.",
  ["histories","inputs","configurations"],"All interleavings of one or two inertial streams and an encoder stream (late, early, bursts, gaps), all methods, thresholds and resets.",
  "Stream gating depends on skewed time stamps the tests never use.",
  [GY],
  [("stream gating","imu_ang_vel_ekf.cpp RunOnce and the method-specific corrections")],
  [("queues","pending samples and fused output","imu/ang vel buffers, output queue")],
  ["queues and output after each step"])
p("K01","Leg kinematics equal the robot's geometry, and the Jacobian its derivative",
  "For every joint configuration and leg the foot position equals the rigid chain of the robot's documented link offsets, mirrored correctly between left and right and front and rear, and the Jacobian is the derivative of that position with respect to that leg's joint angles, zero elsewhere. Legs are independent of each other's joints.",
  ["inputs"],"All joint angles in [-2pi,2pi]^12 and beyond, all four legs.",
  "Tests compare one zero configuration; generated code must be right for all angles.",
  [MC,"src/kinematics/robots/mini_cheetah/"],
  [("generated foot position and Jacobian","p_Body_to_*.cpp, Jp_Body_to_*.cpp")],
  observe=["ComputeKinematics, positions and Jacobians"])
p("K02","The generated kinematics family is mutually consistent",
  "For every joint configuration and leg, the generated homogeneous transform contains the generated rotation and position, the rotation is a proper rotation, and the body, spatial and split-velocity Jacobians all are the derivatives of that same transform in their respective frames.",
  ["inputs"],"All joint angles, all four legs, all eleven generated functions per leg.",
  "No test covers most of these functions; one wrong sign shows only for some angles.",
  ["src/kinematics/robots/mini_cheetah/"],
  [("generated functions","R_,H_,p_,Jp_,Jb_,Js_,Jvb_,Jvs_,Jwb_,Jws_ Body_to_*.cpp")],
  observe=["return values of the generated functions"])
p("K03","Leg measurements map to the right leg and give the right start velocity",
  "Positions, Jacobians and contact flags of a leg measurement belong to the leg asked for, for every encoder and contact vector. The initial body velocity is the one that keeps the first contacting foot at rest given joint rates and body rate, and is zero if no foot is in contact.",
  ["inputs"],"All encoder vectors, joint rates, body rates and the 16 contact patterns.",
  "Tests never query the initial velocity with non-trivial data.",
  [MC,"src/measurement/legged_kinematics.cpp","include/drift/measurement/legged_kinematics.h"],
  [("leg slices","mini_cheetah_kinematics.cpp ComputeKinematics/get_init_velocity"),("measurement accessors","legged_kinematics.cpp")],
  observe=["accessors after computing kinematics"])
p("D01","Measurement and state containers return what was put in",
  "Every measurement and state container returns exactly the value stored by the matching setter or constructor, of the documented kind and shape, independent of the order of the other operations and of copies made before or after. Accessors for a part of the state (rotation, velocity, position, biases, their uncertainties and noises) read and write exactly that part for any number of tracked contacts.",
  ["inputs","histories"],"All values and sequences of setters, copies and state size changes.",
  "Tests check few setters on the smallest state.",
  ["include/drift/measurement/","src/measurement/",RS,"include/drift/state/robot_state.h"],
  [("accessors","robot_state.cpp, measurement classes")],
  observe=["accessor return values"])
p("W01","The wheel-odometry baseline integrates body twist faithfully",
  "Dead reckoning from wheel velocity and angular velocity, starting from the identity at the first sample, turns at each further pair by the exact rotation over the elapsed time and advances by the velocity in the heading before the turn. Its pose log records that trajectory, with valid rotations, at the configured rate.",
  ["inputs","histories"],"All twist histories and time steps, logging rates.",
  "No test covers it.",
  ["baselines/src/wheel_odometry/wheel_odometry.cpp"],
  [("integration","wheel odometry RunOnce")],
  observe=["pose log"])
p("R01","Robot messages become measurements without loss or distortion",
  "Every incoming robot message of a supported kind (of odometry, every one after the first) becomes exactly one queued measurement per output, in order, with its time stamp to nanosecond resolution, its values in the documented units and axes, and (for wheel encoders and odometry) the body velocity its kinematics imply. Messages that cannot be interpreted (entries for wheels, joints or contacts missing, an orientation that is neither absent nor a unit quaternion, odometry repeating the last time stamp) are dropped without effect, and sources do not influence each other.",
  ["inputs","histories"],"All message values, stamps, calibration constants and source combinations.",
  "The communication layer has no tests and is not built here; it is exercised against stand-in message headers.",
  ["ROS/drift/src/communication/ros_subscriber.cpp","ROS/drift/include/communication/ros_subscriber.h"],
  [("callbacks","ros_subscriber.cpp *CallBack")],
  [("buffers","per-source queues and locks","ROSSubscriber buffers")],
  ["queues after each callback"])
p("R02","Published messages carry the estimate they were made from",
  "Each state taken from the estimator's queue is published once and in order, with its time, position and orientation as estimated and the pose covariance in the message format's documented order; the path message accumulates the published poses at the configured rate. An empty queue publishes nothing.",
  ["inputs","histories","schedules"],"All states and covariances, queue patterns and rates.",
  "The communication layer has no tests and is not built here; it is exercised against stand-in message headers.",
  ["ROS/drift/src/communication/ros_publisher.cpp","ROS/drift/include/communication/ros_publisher.h"],
  [("publishing","ros_publisher.cpp PosePublish/PathPublish")],
  observe=["captured published messages"])
out=os.path.join(os.path.dirname(os.path.dirname(os.path.abspath(__file__))),"properties.jsonl")
with open(out,"w") as f:
    for x in P:
        assert len(x["title"])<=80,x["id"]
        f.write(json.dumps(x)+"\n")
print(len(P))
